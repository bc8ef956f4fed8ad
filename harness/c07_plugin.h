#pragma once
#include <lm/component.h>
struct VtPlug : public lm::Component { virtual int f() const = 0; };
