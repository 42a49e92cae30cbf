// service list for the native builds of the runtime: VF_SERVICES names the services linked in
#ifndef VF_SERVICES
#define VF_SERVICES(X)
#endif
namespace cali
{
#define X(s) extern CaliperService s##_service;
VF_SERVICES(X)
#undef X
namespace services
{
void add_default_service_specs()
{
    const CaliperService list[] = {
#define X(s) s##_service,
        VF_SERVICES(X)
#undef X
        { nullptr, nullptr } };
    add_service_specs(list);
}
}
}
