// Stand-in: reading a file of the described file system line by line or word by word.
#pragma once
#include "../filesystem.hpp"
namespace boost { namespace filesystem {
class ifstream { const char* c=nullptr; std::size_t p=0; bool ok=false, eof_=false; public: ifstream(){} explicit ifstream(path const& f){ open(f); } ifstream(ifstream const&)=delete;
    void open(path const& f){ c=vfs_content(f.c_str()); ok=c!=nullptr; p=0; } bool is_open() const { return c!=nullptr; } void close(){ c=nullptr; } bool good() const { return ok&&!eof_; } bool fail() const { return !ok; } bool eof() const { return eof_; } explicit operator bool() const { return ok; } bool operator!() const { return !ok; }
    ifstream& line(std::string& s,char d){ if(!ok||eof_){ ok=false; return *this; } s.clear(); bool any=false; while(c[p]&&c[p]!=d){ s+=c[p++]; any=true; } if(c[p]) p++; else { eof_=true; if(!any) ok=false; } return *this; }
    ifstream& operator>>(std::string& s){ if(!ok){ return *this; } s.clear(); while(c[p]==' '||c[p]=='\n'||c[p]=='\t') p++; while(c[p]&&c[p]!=' '&&c[p]!='\n'&&c[p]!='\t') s+=c[p++]; if(!c[p]) eof_=true; if(s.empty()) ok=false; return *this; }
    template<class T> ifstream& operator>>(T& v){ std::string s; *this>>s; if(ok){ v=0; for(char x:s){ if(x<'0'||x>'9'){ ok=false; break; } v=v*10+(x-'0'); } } return *this; } };
}}
namespace std { inline boost::filesystem::ifstream& getline(boost::filesystem::ifstream& f,std::string& s,char d='\n'){ return f.line(s,d); } }
