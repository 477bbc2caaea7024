// Stand-in for the string algorithms (the original needs locales).
#pragma once
#include <string>
#include <vector>
namespace boost { namespace algorithm {
struct is_any_ofF { std::string s; bool operator()(char c) const { for(char x:s) if(x==c) return true; return false; } };
inline is_any_ofF is_any_of(std::string const& s){ return {s}; }
struct is_spaceF { bool operator()(char c) const { return c==' '||(c>='\t'&&c<='\r'); } }; inline is_spaceF is_space(){ return {}; }
enum token_compress_mode_type { token_compress_on, token_compress_off };
template<class C,class P> C& split(C& r,std::string const& s,P p,token_compress_mode_type m=token_compress_off){ C t; std::string w; std::size_t i=0; for(;;){ if(i==s.size()){ t.push_back(w); break; } if(p(s[i])){ t.push_back(w); w.clear(); i++; if(m==token_compress_on) while(i<s.size()&&p(s[i])) i++; } else w+=s[i++]; } r.swap(t); return r; }
template<class P> void trim_left_if(std::string& s,P p){ std::size_t i=0; while(i<s.size()&&p(s[i])) i++; s.erase(0,i); } template<class P> void trim_right_if(std::string& s,P p){ while(!s.empty()&&p(s.back())) s.pop_back(); }
template<class P> void trim_if(std::string& s,P p){ trim_right_if(s,p); trim_left_if(s,p); }
inline void trim(std::string& s){ trim_if(s,is_space()); } inline void trim_left(std::string& s){ trim_left_if(s,is_space()); } inline void trim_right(std::string& s){ trim_right_if(s,is_space()); } inline std::string trim_copy(std::string s){ trim(s); return s; }
inline bool starts_with(std::string const& a,std::string const& b){ return a.size()>=b.size()&&a.compare(0,b.size(),b)==0; }
} using algorithm::split; using algorithm::is_any_of; using algorithm::trim; using algorithm::trim_copy; }
