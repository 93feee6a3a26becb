// C20: another translation unit of the program, with an interface of its own whose name is also used in h_misc.cpp
#include "twin.h"
#include <teiacare/sdk/service_locator.hpp>

namespace {
namespace twin {
struct IService { virtual ~IService() = default; virtual const char* name() const = 0; virtual int number() const = 0; };
struct Service final : IService { int n; explicit Service(int k) : n(k) {} const char* name() const override { return "other"; } int number() const override { return n; } };
}
std::shared_ptr<twin::IService> held;
}
namespace other {
using tc::sdk::service_locator;
bool reg(int k) { return service_locator::instance().register_service<twin::IService, twin::Service>(k); }
bool reg_instance(int k) { held = std::make_shared<twin::Service>(k); return service_locator::instance().register_instance<twin::IService>(held); }
bool unreg() { held.reset(); return service_locator::instance().unregister<twin::IService>(); }
bool has() { return service_locator::instance().is_registered<twin::IService>(); }
int get() { auto s = service_locator::instance().get<twin::IService>(); return s ? s->number() : -1; }
}
