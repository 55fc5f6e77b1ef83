// logging is switched off in the replay build (LOG4CPP_DISABLE_LOGGING)
#include <log4cpp/Category.hh>
static char RAW[4096];
namespace log4cpp {
Category& Category::getInstance(const std::string&) { return *reinterpret_cast<Category*>(RAW); }
Category& Category::getRoot() { return *reinterpret_cast<Category*>(RAW); }
}
