#include "harness/c07_plugin.h"
struct VtPlug_a final : public VtPlug {
    void construct(const lm::Json&) override {}
    int f() const override { return 'a'; }
};
LM_COMP_REG_IMPL_ALIAS(VtPlug_a, "vtplug::a", "vtplugalias_a");
