// C07: barriers
#include "h.hpp"
using namespace boost::fibers;
//@file prop=C07
static void group(unsigned n,unsigned fibers,unsigned waits){ // fibers*waits is a multiple of n
    use_any(); barrier b(n); unsigned arrived=0,left=0; unsigned leaders=0; bool led[16]={}; fiber f[6];
    for(unsigned i=0;i<fibers;i++) f[i]=fiber([&]{ for(unsigned w=0;w<waits;w++){ unsigned c=arrived++/n; bool r=b.wait();
            vf_check(arrived>=(c+1)*n,"a wait returned before the whole group had arrived"); left++; vf_check(left<=arrived/n*n,"more waits returned than groups completed");
            if(r){ vf_check(!led[c],"two waits of one cycle returned true"); led[c]=true; leaders++; } } });
    for(unsigned i=0;i<fibers;i++) f[i].join();
    vf_check(leaders==fibers*waits/n,"not exactly one wait per cycle returned true"); for(unsigned c=0;c<fibers*waits/n;c++) vf_check(led[c],"no wait of a cycle returned true"); vf_check(left==fibers*waits,"a wait did not return"); vf_reach("done"); }
//@ entry=h_bar_2x2 reach=done bound="size 2, 2 fibers x 3 cycles, every order"
VF_ENTRY h_bar_2x2(){ group(2,2,3); }
//@ entry=h_bar_3x2 reach=done jobs=4 bound="size 3, 3 fibers x 2 cycles, every order"
VF_ENTRY h_bar_3x2(){ group(3,3,2); }
//@ entry=h_bar_over reach=done jobs=4 bound="size 2, 4 fibers x 1 wait, every order"
VF_ENTRY h_bar_over(){ group(2,4,1); }
//@ entry=h_bar_over3 reach=done jobs=8 tier=thorough bound="size 2, 6 fibers x 1 wait, every order"
VF_ENTRY h_bar_over3(){ group(2,6,1); }
//@ entry=h_bar_3x3 reach=done jobs=8 tier=thorough bound="size 3, 3 fibers x 3 cycles, every order"
VF_ENTRY h_bar_3x3(){ group(3,3,3); }
//@ entry=h_bar_4 reach=done jobs=8 tier=thorough bound="size 4, 4 fibers x 2 cycles, every order"
VF_ENTRY h_bar_4(){ group(4,4,2); }
//@ entry=h_bar_one reach=done bound="size 1, 1 fiber x 3 cycles"
VF_ENTRY h_bar_one(){ group(1,1,3); }
//@ entry=h_bar_short reach=stuck bound="size 3, 2 waiting fibers: nobody may pass"
static bool passed=false; static void stuck(){ vf_check(!passed,"a wait returned before the whole group had arrived"); vf_reach("stuck"); vf_end(); }
VF_ENTRY h_bar_short(){ use_any(); on_stuck=stuck; barrier b(3); fiber f([&]{ b.wait(); passed=true; }), g([&]{ b.wait(); passed=true; }); f.join(); g.join(); }
//@ entry=h_bar_size reach=zero,ok bound="every size"
VF_ENTRY h_bar_size(){ use_any(); uint64_t n=vf_sym("n",64); int e; { e=err_of([&]{ barrier b(n); }); }
    vf_check((n==0)==(e==EINVAL),"barrier: a size of zero, and no other, must be rejected with invalid_argument"); if(n==0){ vf_reach("zero"); vf_end(); } vf_reach("ok");
    if(n>1){ on_stuck=stuck; barrier b(n); fiber f([&]{ b.wait(); passed=true; }); quiesce(); vf_check(!passed,"a wait returned before the whole group had arrived"); vf_end(); } }
// ---- threads
struct sh { barrier* b; int n; int rounds; long data[3][4]; int leaders[4]; }; struct arg { sh* s; int me; };
static void worker(void* q){ auto*a=(arg*)q; sh& s=*a->s; for(int r=0;r<s.rounds;r++){ s.data[a->me][r]=10*a->me+r+1; bool l=s.b->wait(); for(int k=0;k<s.n;k++) vf_check(s.data[k][r]==10*k+r+1,"a wait returned before the whole group had arrived, or their writes are not visible"); if(l) __atomic_add_fetch(&s.leaders[r],1,__ATOMIC_SEQ_CST); } }
static void threads(int n,int rounds){ barrier b(n); sh s{}; s.b=&b; s.n=n; s.rounds=rounds; arg a[3]; int t[3]; for(int i=0;i<n;i++) a[i]={&s,i}; for(int i=1;i<n;i++) t[i]=vf_thread_spawn(worker,&a[i]); worker(&a[0]); for(int i=1;i<n;i++) vfe_thread_join(t[i]); for(int r=0;r<rounds;r++) vf_check(s.leaders[r]==1,"not exactly one wait per cycle returned true"); vf_reach("done"); }
//@ entry=mt_bar2 prop=C07,C33 mt=1 hb=1 pb=2 jobs=2 reach=done bound="2 threads x 1 cycle"
VF_ENTRY mt_bar2(){ threads(2,1); }
//@ entry=mt_bar22 prop=C07,C33 mt=1 hb=1 pb=2 jobs=4 reach=done bound="2 threads x 2 cycles"
VF_ENTRY mt_bar22(){ threads(2,2); }
//@ entry=mt_bar3 prop=C07,C33 mt=1 hb=1 pb=1 jobs=8 reach=done bound="3 threads x 1 cycle"
VF_ENTRY mt_bar3(){ threads(3,1); }
//@ entry=mt_bar3d prop=C07 mt=1 hb=1 pb=2 jobs=8 tier=thorough reach=done bound="3 threads x 1 cycle"
VF_ENTRY mt_bar3d(){ threads(3,1); }
