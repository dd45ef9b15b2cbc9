// Text form of everything a template description says, for comparisons.
#pragma once
#include "model.h"
#include "mfast.h"
#include "mfast/xml_parser/dynamic_templates_description.h"
namespace sim {
// one line per instruction, children indented; walks (and so touches) all of it
std::string describe(const mfast::field_instruction *i);
std::string describe(const mfast::templates_description &d);
std::string describe(const mfast::aggregate_view_info &v);
std::string describe_all(const mfast::dynamic_templates_description &d);
// first difference of two descriptions
std::string first_diff(const std::string &a, const std::string &b);
// does the loaded template say what the document says?
bool agrees(const Template &t, const mfast::template_instruction *i, std::string *why);
} // namespace sim
