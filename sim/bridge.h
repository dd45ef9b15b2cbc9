// Moves message values between the model (Val) and mFAST messages.
#pragma once
#include "model.h"
#include <functional>
#include "mfast.h"

namespace sim {
typedef std::function<const mfast::template_instruction *(int)> InstOf; // template index in its Doc

void fill(const mfast::aggregate_mref &m, const std::vector<Field> &fs, const std::vector<Val> &v, const Doc &d, const InstOf &inst);
Val extract1(const mfast::field_cref &c, const Field &f, const Doc &d);
std::vector<Val> extract(const mfast::aggregate_cref &m, const std::vector<Field> &fs, const Doc &d);
} // namespace sim
