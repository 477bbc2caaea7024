#pragma once
extern "C" unsigned long vf_sym(const char*, unsigned) noexcept; extern "C" void vf_assume(bool) noexcept;
extern "C" unsigned vf_rand_cap; extern "C" __attribute__((weak)) unsigned vf_rand_cap=0; // 0: full range
extern "C" unsigned long (*vf_rand_hook)(unsigned long,unsigned long); extern "C" __attribute__((weak)) unsigned long (*vf_rand_hook)(unsigned long,unsigned long)=nullptr; // a harness may draw instead
namespace std {
template<typename G> struct __is_uniform_random_bit_generator_shim {};
template<typename I=int> class uniform_int_distribution {
    I a_, b_;
public:
    typedef I result_type;
    struct param_type { I a,b; typedef uniform_int_distribution<I> distribution_type; param_type():a(0),b(0){} explicit param_type(I x,I y):a(x),b(y){} };
    uniform_int_distribution():a_(0),b_(0){} explicit uniform_int_distribution(I a,I b):a_(a),b_(b){}
    I a() const { return a_; } I b() const { return b_; } I min() const { return a_; } I max() const { return b_; } void reset(){}
    template<class G> I operator()(G&){ I hi=b_; if(vf_rand_cap && (unsigned long)(hi-a_)>vf_rand_cap) hi=(I)(a_+vf_rand_cap); if(hi==a_) return a_; if(vf_rand_hook && sizeof(I)==4) return (I)vf_rand_hook((unsigned long)a_,(unsigned long)hi); unsigned long v=vf_sym("rand",64); vf_assume(v-(unsigned long)a_<=(unsigned long)hi-(unsigned long)a_); return (I)v; }
    template<class G> I operator()(G& g,param_type const& p){ a_=p.a; b_=p.b; return (*this)(g); }
};
}
