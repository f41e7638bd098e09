// Every public class template, instantiated with all of its members.
#include <icl_core/icl_core.h>
#include <icl_core/Array2D.h>
#include <icl_core/AtScopeEnd.h>
#include <icl_core/BitfieldHelper.h>
#include <icl_core/DataHeader.h>
#include <icl_core/Finalizable.h>
#include <icl_core/KeyValueDirectory.h>
#include <icl_core/KeyValueDirectory.hpp>
#include <icl_core/List.h>
#include <icl_core/Map.h>
#include <icl_core/Multimap.h>
#include <icl_core/Queue.h>
#include <icl_core/RingBuffer.h>
#include <icl_core/SearchableStack.h>
#include <icl_core/SequenceNumber.h>
#include <icl_core/Set.h>
#include <icl_core/SetHelper.h>
#include <icl_core/Singleton.h>
#include <icl_core/UnionFind.h>
#include <icl_core/Vector.h>
#include <icl_core/VectorWrapper.h>
#include <icl_core/ZBuffer.h>
#include <icl_core_thread/SingletonThreadingModels.h>
#include <icl_core_logging/Logging.h>
#include <icl_core_logging/ScopedTimer.h>
#include <icl_core_logging/SingletonThreadingModels.h>
#include <icl_core_config/Config.h>
#include <icl_core_config/ConfigValues.h>
#include <icl_core_config/MemberEnum.h>
#include <icl_core_config/MemberValue.h>
#include <icl_core_plugin/Plugin.h>
#include <icl_core_plugin/PluginManager.h>
#include <icl_core_crypt/Sha2.h>

namespace vf {
struct Plain { int a; double b; };
struct Single { int x; };
struct Plug { virtual ~Plug() {} ICL_CORE_PLUGIN_DECLARE_PLUGIN_INTERFACE(Plug) };
typedef std::vector<int> IntVector;
extern const char plugin_dir[];
const char plugin_dir[] = "plugins";
enum Colour { eC_RED };
void touch(void *);
}

// instances
template class icl_core::Array2D<int>;
template class icl_core::Array2D<std::string>;
template class icl_core::Finalizable<int>;
template class icl_core::Finalizable<std::string>;
template class icl_core::KeyValueDirectory<icl_core::String>;
template class icl_core::KeyValueDirectoryIterator<icl_core::String>;
template class icl_core::KeyValueDirectory<int>;
template class icl_core::List<int>;
template class icl_core::Map<int, int>;
template class icl_core::Multimap<int, int>;
template class icl_core::Queue<int>;
template class icl_core::RingBuffer<int>;
template class icl_core::RingBuffer<std::string>;
template class icl_core::SearchableStack<int>;
template class icl_core::SearchableStack<std::string>;
template class icl_core::SequenceNumber<uint8_t, 200>;
template class icl_core::SequenceNumber<uint32_t, 1000, 10, 20>;
template class icl_core::Set<int>;
template class icl_core::Vector<int>;
template class icl_core::ZBuffer<int>;
template class icl_core::ZBuffer<double, std::greater<double> >;
template class icl_core::Singleton<vf::Single>;
template class icl_core::Singleton<vf::Single, icl_core::SCPCreateStatic, icl_core::SLPNoDestroy>;
template class icl_core::Singleton<vf::Single, icl_core::SCPCreateUsingMalloc>;
template class icl_core::Singleton<vf::Single, icl_core::SCPCreateUsingNew, icl_core::SLPDefaultLifetime, icl_core::thread::STMMultiThreadedWithMutex>;
template class icl_core::Singleton<vf::Single, icl_core::SCPCreateUsingNew, icl_core::SLPDefaultLifetime, icl_core::logging::STMMultiThreadedWithSemaphore>;
template class icl_core::logging::ScopedTimer<icl_core::logging::Nirwana>;
template class icl_core::config::ConfigValue<int>;
template class icl_core::config::ConfigValue<std::string>;
template class icl_core::config::ConfigValue<bool>;
template class icl_core::config::ConfigValueDefault<double>;
template class icl_core::config::ConfigEnum<int>;
template class icl_core::config::ConfigEnumDefault<int>;
template class icl_core::config::MemberValue<double, vf::Plain>;
template class icl_core::config::MemberEnum<int, vf::Plain>;
template class icl_core::config::ConfigList<vf::Plain, std::back_insert_iterator<std::vector<vf::Plain> > >;
template class icl_core::plugin::PluginManager<vf::Plug, vf::plugin_dir>;
template class icl_core::crypt::Sha2Impl<uint32_t, 1u, 2u, 3u, 4u, 5u, 6u, 7u, 8u, 8>;
template class icl_core::crypt::Sha2Impl<uint64_t, 1u, 2u, 3u, 4u, 5u, 6u, 7u, 8u, 8>;
struct Wrapper1 { public: ICL_CORE_WRAP_VECTOR(Wrapper1, vf::IntVector, private, m_v); };
template <typename T> struct Wrapper2 { public: ICL_CORE_WRAP_VECTOR_TYPENAME(Wrapper2, std::vector<T>, private, m_v); }; template class Wrapper2<int>;
struct Wrapper3 { public: ICL_CORE_WRAP_VECTOR_INIT(Wrapper3, vf::IntVector, private, m_v, m_a(0)); int m_a; };
template <typename T> struct Wrapper4 { public: ICL_CORE_WRAP_VECTOR_TYPENAME_INIT(Wrapper4, std::vector<T>, private, m_v, m_a(0)); int m_a; }; template class Wrapper4<int>;
template struct icl_core::Stamped<vf::IntVector>;
void construct() { icl_core::DataHeader a, b("", boost::posix_time::ptime(), 1); vf::touch(&a); vf::touch(&b); }
