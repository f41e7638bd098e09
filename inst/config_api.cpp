// Instantiates the typed access to the configuration and to the command line.
#include <icl_core_config/Config.h>
#include <icl_core_config/ConfigValues.h>
#include <icl_core_config/MemberEnum.h>
#include <icl_core_config/MemberValue.h>
#include <icl_core_logging/Logging.h>
#include <list>

namespace vf {
enum Color { RED, GREEN };
struct Plain { int number; double real; bool flag; Color color; std::string text; };
}

namespace icl_core { namespace config {

#define VF_TYPE(T) \
  template bool get<T>(const icl_core::String&, T&); \
  template bool get<T>(const char*, T&); \
  template T getDefault<T>(const icl_core::String&, const T&); \
  template T getDefault<T>(const char*, const T&); \
  template bool paramOpt<T>(const icl_core::String&, T&); \
  template bool paramOpt<T>(const char*, T&); \
  template T paramOptDefault<T>(const icl_core::String&, const T&); \
  template T paramOptDefault<T>(const char*, const T&); \
  template bool paramNonOpt<T>(size_t, T&);
VF_TYPE(int32_t)
VF_TYPE(uint32_t)
VF_TYPE(int64_t)
VF_TYPE(double)
VF_TYPE(std::string)
VF_TYPE(bool)

template bool get<vf::Color>(const icl_core::String&, vf::Color&, const char*[], const char*);
template bool get<vf::Color>(const char*, vf::Color&, const char*[], const char*);
template bool paramOpt<vf::Color>(const icl_core::String&, vf::Color&, const char*[], const char*);
template bool paramOpt<vf::Color>(const char*, vf::Color&, const char*[], const char*);
template bool paramNonOpt<vf::Color>(size_t, vf::Color&, const char*[], const char*);

template class ConfigValue<int32_t>;
template class ConfigValue<double>;
template class ConfigValue<std::string>;
template class ConfigValue<bool>;
template class ConfigValueDefault<int32_t>;
template class ConfigValueDefault<double>;
template class ConfigValueDefault<std::string>;
template class ConfigValueDefault<bool>;
template class ConfigEnum<vf::Color>;
template class ConfigEnumDefault<vf::Color>;
template class MemberValue<int32_t, vf::Plain>;
template class MemberValue<double, vf::Plain>;
template class MemberValue<std::string, vf::Plain>;
template class MemberValue<bool, vf::Plain>;
template class MemberEnum<vf::Color, vf::Plain>;
template class ConfigList<vf::Plain>;

#define VF_SET(T) \
  template void setValue<T>(const icl_core::String&, const T&); \
  template void setValue<T>(const char*, const T&);
VF_SET(int32_t)
VF_SET(double)
VF_SET(std::string)
VF_SET(bool)

}}

namespace vf {
bool batch(std::string p, icl_core::config::ConfigValueList l, icl_core::logging::LogStream& s, bool c, bool r)
{ return icl_core::config::get(p, l, s, c, r); }
bool batch(icl_core::config::ConfigValueList l, icl_core::logging::LogStream& s, bool c, bool r)
{ return icl_core::config::get(l, s, c, r); }
void set(const std::string& k, const std::string& v) { icl_core::config::setValue(k, v); }
std::string nonOpt(size_t i) { return icl_core::config::paramNonOpt(i); }
bool present(const std::string& k) { return icl_core::config::paramOptPresent(k); }
}

#include <icl_core/KeyValueDirectory.hpp>
template class icl_core::KeyValueDirectory<int>;
template class icl_core::KeyValueDirectoryIterator<int>;

#include <icl_core_config/ConfigObserver.h>
namespace vf {
struct Observer : icl_core::config::ConfigObserver
{
  virtual void valueChanged(const icl_core::String&);
};
void Observer::valueChanged(const icl_core::String&) {}
void observe() { Observer o; icl_core::config::ConfigManager::instance().registerObserver(&o); }
}
