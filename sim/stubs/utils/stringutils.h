#ifndef UTILS_SU_H
#define UTILS_SU_H
#include <sstream>
#include <string>
#include <algorithm>
namespace utils { struct StringUtils {
 static void toUpper(std::string&s){ for(size_t i=0;i<s.size();i++) s[i]=toupper(s[i]); }
 static bool startsWith(const std::string&s,const std::string&p){ return s.compare(0,p.size(),p)==0;}
 template<class T> static std::string toString(T t){ std::ostringstream o;o<<t;return o.str();}
 template<class T> static T parse(const std::string&s,bool){ std::istringstream i(s);T t;i>>t;return t;}
};
template<> inline std::string StringUtils::parse(const std::string&s,bool){return s;}
template<> inline const char* StringUtils::parse(const std::string&s,bool){return s.c_str();}
}
#endif
