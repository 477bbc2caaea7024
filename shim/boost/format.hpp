// Stand-in for Boost.Format: %d %u %s %N% with integers and strings.
#pragma once
#include <string>
#include "vf.h"
namespace boost { class format { std::string f; std::string a[8]; unsigned n=0; public: explicit format(std::string const& s):f(s){}
    format& operator%(std::string const& s){ a[n++]=s; return *this; } format& operator%(const char* s){ a[n++]=s; return *this; }
    template<class T> format& operator%(T const& t){ unsigned long v=vf_concrete((unsigned long)t); std::string s; do{ s.insert(s.begin(),(char)('0'+v%10)); v/=10; } while(v); a[n++]=s; return *this; }
    std::string str() const { std::string r; unsigned k=0; for(std::size_t i=0;i<f.size();i++){ if(f[i]!='%'){ r+=f[i]; continue; } i++; if(f[i]=='%') r+='%'; else if(f[i]>='1'&&f[i]<='9'){ r+=a[f[i]-'1']; i++; } else r+=a[k++]; } return r; } };
inline std::string str(format const& f){ return f.str(); } }
