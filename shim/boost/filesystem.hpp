// Stand-in for Boost.Filesystem: a file system described by the harness (vfs_*).
#pragma once
#include <string>
#include <cstddef>
#include <iterator>
#include <memory>
#include <stdexcept>
#include <system_error>
extern "C" { bool vfs_exists(const char*); const char* vfs_content(const char*); const char* vfs_entry(const char* dir,unsigned i); } // content or nullptr; name of the i-th entry or nullptr
namespace boost { namespace filesystem {
struct path { std::string s; path(){} path(const char* c):s(c){} path(std::string const& x):s(x){} path(std::string&& x):s(std::move(x)){}
    std::string string() const { return s; } std::string const& native() const { return s; } const char* c_str() const { return s.c_str(); } std::string generic_string() const { return s; } bool empty() const { return s.empty(); }
    path filename() const { std::size_t p=s.size(); while(p&&s[p-1]!='/') p--; return p==s.size()&&p ? path(".") : path(s.substr(p)); }
    path parent_path() const { std::size_t p=s.size(); while(p&&s[p-1]!='/') p--; return path(s.substr(0,p?p-1:0)); }
    path& operator/=(path const& o){ if(!s.empty()&&s.back()!='/') s+='/'; s+=o.s; return *this; } path& operator+=(std::string const& o){ s+=o; return *this; }
    operator std::string() const { return s; }
    friend path operator/(path a,path const& b){ a/=b; return a; } friend bool operator==(path const& a,path const& b){ return a.s==b.s; } friend bool operator!=(path const& a,path const& b){ return a.s!=b.s; } friend bool operator<(path const& a,path const& b){ return a.s<b.s; } };
struct filesystem_error : std::runtime_error { using std::runtime_error::runtime_error; };
inline bool exists(path const& p){ return vfs_exists(p.c_str()); } inline bool is_regular_file(path const& p){ return vfs_content(p.c_str())!=nullptr; } inline bool is_directory(path const& p){ return vfs_exists(p.c_str())&&!vfs_content(p.c_str()); }
struct directory_entry { boost::filesystem::path p; boost::filesystem::path const& path() const { return p; } operator boost::filesystem::path const&() const { return p; } };
class directory_iterator { std::string d; unsigned i=0; bool end_=true; mutable directory_entry e; void load(){ const char* n=vfs_entry(d.c_str(),i); end_=!n; if(n) e.p=path(d)/path(n); }
public: typedef std::input_iterator_tag iterator_category; typedef directory_entry value_type; typedef std::ptrdiff_t difference_type; typedef directory_entry const* pointer; typedef directory_entry const& reference;
    directory_iterator(){} explicit directory_iterator(path const& p):d(p.s){ if(!exists(p)) throw filesystem_error("directory_iterator"); while(d.size()>1&&d.back()=='/') d.pop_back(); load(); }
    directory_entry const& operator*() const { return e; } directory_entry const* operator->() const { return &e; } directory_iterator& operator++(){ i++; load(); return *this; }
    friend bool operator==(directory_iterator const& a,directory_iterator const& b){ return a.end_==b.end_&&(a.end_||(a.d==b.d&&a.i==b.i)); } friend bool operator!=(directory_iterator const& a,directory_iterator const& b){ return !(a==b); } };
inline directory_iterator begin(directory_iterator i){ return i; } inline directory_iterator end(directory_iterator const&){ return directory_iterator(); }
}}
