// Stand-in for libstdc++'s iostreams when the library is compiled for symbolic execution: formatted
// output of text and integers onto a virtual file system (libmodel.cpp).
#pragma once
#include <iosfwd>
#include <string>
#include <stdexcept>
#include <system_error>
#include <cstdio>
#include <cstdint>
extern "C" { int vfs_open(const char*name,int create,int trunc); void vfs_write(int fd,const char*d,unsigned long n); void vfs_seek(int fd,unsigned long p); long vfs_size(int fd); void vfs_read(int fd,char*d,unsigned long n); }
namespace std {
class ios_base { public: typedef unsigned fmtflags; typedef unsigned openmode; typedef unsigned iostate; typedef int seekdir; static const fmtflags dec=1,hex=2,oct=4,skipws=8,fixed=16,left=32,right=64; static const openmode in=1,out=2,app=4,ate=8,trunc=16,binary=32; static const iostate goodbit=0,badbit=1,failbit=2,eofbit=4; static const seekdir beg=0,cur=1,end=2; class Init{ public: Init(){} };
  fmtflags _f=dec; int _w=0; char _fill=' '; int _p=6; fmtflags flags()const{ return _f; } fmtflags flags(fmtflags f){ fmtflags o=_f; _f=f; return o; } fmtflags setf(fmtflags f){ fmtflags o=_f; _f|=f; return o; } int width()const{ return _w; } int width(int w){ int o=_w; _w=w; return o; } int precision()const{ return _p; } int precision(int p){ int o=_p; _p=p; return o; } virtual ~ios_base(){} };
template<class C,class T> class basic_ios: public ios_base { public: unsigned _st=0; C fill()const{ return (C)_fill; } C fill(C c){ C o=(C)_fill; _fill=(char)c; return o; } void clear(unsigned s=0){ _st=s; } void setstate(unsigned s){ _st|=s; } unsigned rdstate()const{ return _st; } bool good()const{ return _st==0; } bool eof()const{ return (_st&4)!=0; } bool fail()const{ return (_st&3)!=0; } bool bad()const{ return (_st&1)!=0; } explicit operator bool()const{ return !fail(); } bool operator!()const{ return fail(); } };
template<class C,class T> class basic_ostream: virtual public basic_ios<C,T> { public:
  int _fd=-1; basic_string<char>*_str=nullptr;
  void _raw(const char*d,unsigned long n){ if(this->_st&3) return; if(_str) _str->append(d,n); else if(_fd>=0) vfs_write(_fd,d,n); }
  void _pad(const char*d,unsigned long n){ while((long)n<(long)this->_w){ char c=this->_fill; _raw(&c,1); this->_w--; } this->_w=0; _raw(d,n); }
  void _num(unsigned long v,bool neg){ char b[24]; int i=24; unsigned base=(this->_f&ios_base::hex)?16:10; do{ b[--i]="0123456789abcdef"[v%base]; v/=base; }while(v); if(neg) b[--i]='-'; _pad(b+i,24-i); }
  void _snum(long v){ if(v<0&&!(this->_f&ios_base::hex)) _num(0-(unsigned long)v,true); else _num((unsigned long)v,false); }
  basic_ostream& operator<<(int v){ if(this->_f&ios_base::hex) _num((unsigned)v,false); else _snum(v); return *this; } basic_ostream& operator<<(short v){ _snum(v); return *this; } basic_ostream& operator<<(long v){ _snum(v); return *this; } basic_ostream& operator<<(long long v){ _snum((long)v); return *this; } basic_ostream& operator<<(unsigned v){ _num(v,false); return *this; } basic_ostream& operator<<(unsigned short v){ _num(v,false); return *this; } basic_ostream& operator<<(unsigned long v){ _num(v,false); return *this; } basic_ostream& operator<<(unsigned long long v){ _num((unsigned long)v,false); return *this; } basic_ostream& operator<<(bool v){ _num(v,false); return *this; }
  basic_ostream& operator<<(double){ _pad("?",1); return *this; } basic_ostream& operator<<(float){ _pad("?",1); return *this; } basic_ostream& operator<<(long double){ _pad("?",1); return *this; } basic_ostream& operator<<(const void*){ _pad("?",1); return *this; }
  basic_ostream& operator<<(basic_ostream&(*f)(basic_ostream&)){ return f(*this); } basic_ostream& operator<<(ios_base&(*f)(ios_base&)){ f(*this); return *this; } basic_ostream& operator<<(basic_ios<C,T>&(*f)(basic_ios<C,T>&)){ f(*this); return *this; }
  basic_ostream& write(const C*d,long n){ _raw(d,n); return *this; } basic_ostream& put(C c){ _raw(&c,1); return *this; } basic_ostream& flush(){ return *this; } basic_ostream& seekp(long p){ if(_fd>=0) vfs_seek(_fd,p); return *this; } };
inline unsigned long _mstrlen(const char*s){ unsigned long n=0; while(s[n]) n++; return n; }
template<class T> basic_ostream<char,T>& operator<<(basic_ostream<char,T>&o,const char*s){ o._pad(s,_mstrlen(s)); return o; }
template<class T> basic_ostream<char,T>& operator<<(basic_ostream<char,T>&o,char c){ o._pad(&c,1); return o; }
template<class T> basic_ostream<char,T>& operator<<(basic_ostream<char,T>&o,unsigned char c){ char d=(char)c; o._pad(&d,1); return o; }
template<class T,class A> basic_ostream<char,T>& operator<<(basic_ostream<char,T>&o,const basic_string<char,T,A>&s){ o._pad(s.data(),s.size()); return o; }
template<class C,class T> basic_ostream<C,T>& endl(basic_ostream<C,T>&o){ char c='\n'; o._raw(&c,1); return o; } template<class C,class T> basic_ostream<C,T>& flush(basic_ostream<C,T>&o){ return o; } template<class C,class T> basic_ostream<C,T>& ends(basic_ostream<C,T>&o){ char c=0; o._raw(&c,1); return o; }
inline ios_base& dec(ios_base&b){ b._f=(b._f&~7u)|ios_base::dec; return b; } inline ios_base& hex(ios_base&b){ b._f=(b._f&~7u)|ios_base::hex; return b; } inline ios_base& fixed(ios_base&b){ return b; } inline ios_base& left(ios_base&b){ return b; } inline ios_base& right(ios_base&b){ return b; }
struct _mw{int v;}; struct _mf{char v;}; struct _mp{int v;}; inline _mw setw(int v){ return _mw{v}; } inline _mf setfill(char v){ return _mf{v}; } inline _mp setprecision(int v){ return _mp{v}; }
template<class T> basic_ostream<char,T>& operator<<(basic_ostream<char,T>&o,_mw w){ o._w=w.v; return o; } template<class T> basic_ostream<char,T>& operator<<(basic_ostream<char,T>&o,_mf w){ o._fill=w.v; return o; } template<class T> basic_ostream<char,T>& operator<<(basic_ostream<char,T>&o,_mp w){ o._p=w.v; return o; }
template<class C,class T> class basic_istream: virtual public basic_ios<C,T> { public: int _ifd=-1; unsigned long _ipos=0; basic_string<char>*_istr=nullptr;
  long _isz(){ return _istr? (long)_istr->size(): _ifd>=0? vfs_size(_ifd):0; } int _peek(){ if((long)_ipos>=_isz()) return -1; char c; if(_istr) c=(*_istr)[_ipos]; else { vfs_seek(_ifd,_ipos); vfs_read(_ifd,&c,1); } return (unsigned char)c; }
  void _ws(){ int c; while((c=_peek())==' '||c=='\n'||c=='\t'||c=='\r') _ipos++; }
  bool _int(long&v){ _ws(); bool neg=false; int c=_peek(); if(c=='-'||c=='+'){ neg=c=='-'; _ipos++; c=_peek(); } if(c<'0'||c>'9'){ this->_st|=2; if(c<0) this->_st|=4; v=0; return false; } unsigned long r=0; while((c=_peek())>='0'&&c<='9'){ r=r*10+(c-'0'); _ipos++; } if(c<0) this->_st|=4; v=neg?-(long)r:(long)r; return true; }
  template<class I> basic_istream& _g(I&x){ long v; if(this->_st&3) return *this; if(_int(v)) x=(I)v; else x=0; return *this; }
  basic_istream& operator>>(int&x){ return _g(x); } basic_istream& operator>>(short&x){ return _g(x); } basic_istream& operator>>(long&x){ return _g(x); } basic_istream& operator>>(long long&x){ return _g(x); } basic_istream& operator>>(unsigned&x){ return _g(x); } basic_istream& operator>>(unsigned long&x){ return _g(x); } basic_istream& operator>>(unsigned long long&x){ return _g(x); }
  basic_istream& read(C*d,long n){ for(long i=0;i<n;i++){ int c=_peek(); if(c<0){ this->_st|=6; break; } d[i]=(char)c; _ipos++; } return *this; } int get(){ int c=_peek(); if(c<0) this->_st|=6; else _ipos++; return c; } int peek(){ return _peek(); } basic_istream& seekg(long p){ _ipos=p; return *this; } };
template<class T,class A> basic_istream<char,T>& operator>>(basic_istream<char,T>&i,basic_string<char,T,A>&s){ s.clear(); if(i._st&3) return i; i._ws(); int c; while((c=i._peek())>=0&&c!=' '&&c!='\n'&&c!='\t'&&c!='\r'){ s.push_back((char)c); i._ipos++; } if(s.empty()) i._st|=2; if(c<0) i._st|=4; return i; }
template<class T,class A> basic_istream<char,T>& getline(basic_istream<char,T>&i,basic_string<char,T,A>&s){ s.clear(); if(i._st&3) return i; int c; if(i._peek()<0){ i._st|=6; return i; } while((c=i._peek())>=0){ i._ipos++; if(c=='\n') return i; s.push_back((char)c); } i._st|=4; return i; }
template<class C,class T> class basic_iostream: public basic_istream<C,T>, public basic_ostream<C,T> { public: };
template<class C,class T> class basic_ofstream: public basic_ostream<C,T> { public: basic_ofstream(){} explicit basic_ofstream(const char*n,ios_base::openmode m=ios_base::out){ open(n,m); } explicit basic_ofstream(const basic_string<char>&n,ios_base::openmode m=ios_base::out){ open(n.c_str(),m); } void open(const char*n,ios_base::openmode m=ios_base::out){ this->_fd=vfs_open(n,1,(m&(ios_base::app|ios_base::in))?0:1); if(this->_fd<0) this->_st|=2; else if(m&(ios_base::app|ios_base::ate)) vfs_seek(this->_fd,vfs_size(this->_fd)); } void open(const basic_string<char>&n,ios_base::openmode m=ios_base::out){ open(n.c_str(),m); } bool is_open()const{ return this->_fd>=0; } void close(){ if(this->_fd<0) this->_st|=2; this->_fd=-1; } };
template<class C,class T> class basic_ifstream: public basic_istream<C,T> { public: basic_ifstream(){} explicit basic_ifstream(const char*n,ios_base::openmode=ios_base::in){ open(n); } explicit basic_ifstream(const basic_string<char>&n,ios_base::openmode=ios_base::in){ open(n.c_str()); } void open(const char*n,ios_base::openmode=ios_base::in){ this->_ifd=vfs_open(n,0,0); this->_ipos=0; if(this->_ifd<0) this->_st|=2; } void open(const basic_string<char>&n,ios_base::openmode=ios_base::in){ open(n.c_str()); } bool is_open()const{ return this->_ifd>=0; } void close(){ this->_ifd=-1; } };
template<class C,class T> class basic_fstream: public basic_iostream<C,T> { public: basic_fstream(){} explicit basic_fstream(const char*n,ios_base::openmode m=ios_base::in|ios_base::out){ open(n,m); } explicit basic_fstream(const basic_string<char>&n,ios_base::openmode m=ios_base::in|ios_base::out){ open(n.c_str(),m); } void open(const char*n,ios_base::openmode m=ios_base::in|ios_base::out){ bool o=(m&ios_base::out)!=0; int fd=vfs_open(n,(o&&!(m&ios_base::in))||(m&(ios_base::trunc|ios_base::app)),(m&ios_base::trunc)||(o&&!(m&(ios_base::in|ios_base::app)))); this->_fd=fd; this->_ifd=fd; if(fd<0) this->_st|=2; else if(m&(ios_base::app|ios_base::ate)) vfs_seek(fd,vfs_size(fd)); } void open(const basic_string<char>&n,ios_base::openmode m=ios_base::in|ios_base::out){ open(n.c_str(),m); } bool is_open()const{ return this->_fd>=0; } void close(){ this->_fd=-1; this->_ifd=-1; } };
template<class C,class T,class A> class basic_ostringstream: public basic_ostream<C,T> { public: basic_string<char> _b; basic_ostringstream(){ this->_str=&_b; } basic_string<char> str()const{ return _b; } void str(const basic_string<char>&s){ _b=s; } };
template<class C,class T,class A> class basic_istringstream: public basic_istream<C,T> { public: basic_string<char> _b; basic_istringstream(){ this->_istr=&_b; } explicit basic_istringstream(const basic_string<char>&s):_b(s){ this->_istr=&_b; } basic_string<char> str()const{ return _b; } };
template<class C,class T,class A> class basic_stringstream: public basic_iostream<C,T> { public: basic_string<char> _b; basic_stringstream(){ this->_str=&_b; this->_istr=&_b; } explicit basic_stringstream(const basic_string<char>&s):_b(s){ this->_str=&_b; this->_istr=&_b; } basic_string<char> str()const{ return _b; } void str(const basic_string<char>&s){ _b=s; this->_ipos=0; } };
typedef long streamsize_; static ostream cout,cerr,clog; static istream cin; }
