// C37: reading the topology published by the kernel (file system, formatting, regular expressions and string algorithms are stand-ins, see shim/)
#include "h.hpp"
#include <boost/fiber/numa/topology.hpp>
#include <boost/filesystem.hpp>
//@file prop=C37 extra="src/numa/linux/topology.cpp"
using namespace boost::fibers;
// the machine: online processors, the node of each, the distances
static unsigned ncpu, cpu[4], nd[4]; static unsigned nnode, node_id[4]; static unsigned ndist[4], dist[4][4]; static char online[64], distance_[4][32]; static bool numa_links, dist_files; static unsigned pos;
static char* put(char* p,const char* s){ while(*s) *p++=*s++; return p; }
// a number with symbolic digits
static char* number(char* p,const char* name,unsigned digits,unsigned& v){ v=0; for(unsigned i=0;i<digits;i++){ unsigned d=(unsigned)vf_range(name,i==0&&digits>1?1:0,9); v=v*10+d; *p++=(char)('0'+d); } return p; }
static char* decimal(char* p,unsigned v){ char b[12]; unsigned n=0; do{ b[n++]=(char)('0'+v%10); v/=10; } while(v); while(n) *p++=b[--n]; return p; }
static bool eq(const char* a,const char* b){ while(*a&&*a==*b){ a++; b++; } return *a==*b; }
static bool has(const char* s,const char* pre,unsigned& v,const char* post){ while(*pre) if(*s++!=*pre++) return false; if(*s<'0'||*s>'9') return false; v=0; while(*s>='0'&&*s<='9') v=v*10+(unsigned)(*s++-'0'); return eq(s,post); }
static char entry_[32];
extern "C" bool vfs_exists(const char* p){ unsigned v; if(vfs_content(p)) return true; for(const char* post:{"","/"}) if(has(p,"/sys/devices/system/cpu/cpu",v,post)) for(unsigned i=0;i<ncpu;i++) if(cpu[i]==v) return true; return false; }
extern "C" const char* vfs_content(const char* p){ unsigned v; if(eq(p,"/sys/devices/system/cpu/online")) return online; if(dist_files&&has(p,"/sys/devices/system/node/node",v,"/distance")) for(unsigned i=0;i<nnode;i++) if(node_id[i]==v) return distance_[i]; return nullptr; }
extern "C" const char* vfs_entry(const char* d,unsigned i){ unsigned v; if(!has(d,"/sys/devices/system/cpu/cpu",v,"")) return nullptr; static const char* const other[3]={"firmware_node","cache","uevent"};
    for(unsigned c=0;c<ncpu;c++) if(cpu[c]==v){ if(numa_links){ if(i==pos){ char* e=put(entry_,"node"); e=decimal(e,nd[c]); *e=0; return entry_; } if(i>pos) i--; } return i<3?other[i]:nullptr; } return nullptr; }
// the list of online processors as the kernel prints it: ranges and single numbers
static void machine(unsigned groups,unsigned maxdig){ char* p=online; unsigned last=0; ncpu=0; for(unsigned g=0;g<groups;g++){ if(g) *p++=','; unsigned a; p=number(p,"first",maxdig>1?1+vf_choice("digits",maxdig):1,a); vf_assume(a<=11); if(g) vf_assume(a>last+1); cpu[ncpu++]=(unsigned)vf_concrete(a); last=cpu[ncpu-1];
        if(vf_choice("range",2)){ unsigned b=last+1; *p++='-'; p=decimal(p,b); cpu[ncpu++]=b; last=b; } } *p++='\n'; *p=0; }
static void nodes(unsigned n,unsigned const* ids){ for(unsigned i=0;i<ncpu;i++) nd[i]=ids[n>1?vf_choice("node",n):0]; nnode=0; for(unsigned k=0;k<n;k++){ bool used=false; for(unsigned i=0;i<ncpu;i++) used|=nd[i]==ids[k]; if(used) node_id[nnode++]=ids[k]; } }
static void distances(unsigned digits){ for(unsigned i=0;i<nnode;i++){ char* p=distance_[i]; for(unsigned k=0;k<nnode;k++){ if(k) *p++=' '; p=number(p,"distance",digits,dist[i][k]); } *p++='\n'; *p=0; ndist[i]=nnode; } }
static void compare(std::vector<numa::node> const& t){ vf_check(t.size()==nnode,"the number of nodes is wrong");
    for(unsigned i=0;i<nnode;i++){ unsigned r=0; for(unsigned k=0;k<nnode;k++) if(node_id[k]<node_id[i]) r++; numa::node const* x=nullptr; for(auto const& y:t) if(y.id==node_id[i]){ vf_check(!x,"a node is listed twice"); x=&y; } vf_check(x!=nullptr,"a node is missing"); vf_check(&t[r]==x,"the nodes are not in the order of their numbers");
        unsigned c=0; for(unsigned k=0;k<ncpu;k++) if(nd[k]==node_id[i]){ c++; vf_check(x->logical_cpus.count(cpu[k])==1,"an online processor of a node is missing"); } vf_check(x->logical_cpus.size()==c,"a node has a processor that is not its own or not online");
        vf_check(x->distance.size()==ndist[i],"the number of distances is wrong"); for(unsigned k=0;k<ndist[i];k++) vf_check(x->distance[k]==dist[i][k],"a distance is not the one published"); } }
//@ entry=topo_cpus jobs=4 reach=done bound="1-2 groups of 1-2 processors with numbers up to 12, on up to 2 nodes with numbers 0 and 10; the node link at any position of the directory; distances of any two digits"
VF_ENTRY topo_cpus(){ static const unsigned ids[2]={10,0}; numa_links=dist_files=true; pos=vf_choice("pos",4); machine(1+vf_choice("groups",2),2); nodes(2,ids); distances(2); compare(numa::topology()); vf_reach("done"); }
//@ entry=topo_nodes jobs=4 reach=done bound="3-4 processors on up to 3 nodes with numbers 0, 2, 10; distances of any 1 to 3 digits"
VF_ENTRY topo_nodes(){ static const unsigned ids[3]={2,0,10}; numa_links=dist_files=true; pos=1; char* p; ncpu=0; if(vf_choice("list",2)){ p=put(online,"0-3\n"); ncpu=4; for(unsigned i=0;i<4;i++) cpu[i]=i; } else { p=put(online,"1,3-4\n"); ncpu=3; cpu[0]=1; cpu[1]=3; cpu[2]=4; } *p=0; nodes(3,ids); distances(1+vf_choice("digits",3)); compare(numa::topology()); vf_reach("done"); }
//@ entry=topo_flat jobs=1 reach=done bound="a machine without nodes: 1-2 groups of 1-2 processors, with or without a published distance of two digits"
VF_ENTRY topo_flat(){ numa_links=false; dist_files=vf_choice("dist",2)!=0; machine(1+vf_choice("groups",2),2); static const unsigned ids[1]={0}; nodes(1,ids); if(dist_files) distances(2); else { ndist[0]=1; dist[0][0]=10; } compare(numa::topology()); vf_reach("done"); }
