#include "harness/c07_plugin.h"
struct VtPlug_b final : public VtPlug {
    void construct(const lm::Json&) override {}
    int f() const override { return 'b'; }
};
LM_COMP_REG_IMPL_ALIAS(VtPlug_b, "vtplug::b", "vtplugalias_b");
