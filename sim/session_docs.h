#pragma once
#include "model.h"
#include <string>
namespace sim {
enum { TYPE_SETS = 1000 }; // indices of the sets that are compiled without codecs
Doc gen_set_doc(int idx);
bool in_two_documents(int idx); // those that refer to types and templates of another document
std::string acc_code(const Doc &d); // C++ code that uses every generated accessor
}
