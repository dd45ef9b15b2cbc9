From 95b516e8b396f61725d8cd245a6e570793d96593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:51 +0000
Subject: [PATCH 01/70] fix: return type missing on generated
 try_get_nested_message

---
 src/fast_type_gen/inl_gen.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fast_type_gen/inl_gen.cpp b/src/fast_type_gen/inl_gen.cpp
index 6278598..9f11812 100644
--- a/src/fast_type_gen/inl_gen.cpp
+++ b/src/fast_type_gen/inl_gen.cpp
@@ -972,8 +972,10 @@ void inl_gen::visit(const mfast::templateref_instruction *, void *pIndex) {
        << "get_nested_message" << index << "() const\n"
        << "{\n"
        << "  return mfast::nested_message_cref((*this)[" << index << "]);\n"
-       << "}\n\n" << cref_scope_.str() << "try_get_nested_message" << index
-       << "() const\n"
+       << "}\n\n"
+       << "inline\n"
+       << "mfast::nested_message_cref\n" << cref_scope_.str()
+       << "try_get_nested_message" << index << "() const\n"
        << "{\n"
        << "  return mfast::nested_message_cref((*this)[" << index << "]);\n"
        << "}\n\n"
-- 
2.43.0


From b753175077025242abe4ae1a46a77a006ed3877c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:51 +0000
Subject: [PATCH 02/70] fix: generated code redefines elements/values when a
 scope has several inline enums or sets

---
 src/fast_type_gen/cpp_gen.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/fast_type_gen/cpp_gen.cpp b/src/fast_type_gen/cpp_gen.cpp
index 1d5c89a..045e394 100644
--- a/src/fast_type_gen/cpp_gen.cpp
+++ b/src/fast_type_gen/cpp_gen.cpp
@@ -606,10 +606,14 @@ void cpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
     values_variable_name = qualified_name + "::instruction()->element_values()";
     instruction_type.str(qualified_name + "::instruction_type");
   } else {
+    // several enums may be defined in the same scope of the generated source
+    if (pIndex)
+      elements_variable_name << prefix_string() << name << "_";
+    values_variable_name = elements_variable_name.str() + "values";
     elements_variable_name << "elements";
     num_elements_name << inst->num_elements();
 
-    out_ << "static const char* elements[] = {\n";
+    out_ << "static const char* " << elements_variable_name.str() << "[] = {\n";
 
     for (uint64_t i = 0; i < inst->num_elements(); ++i) {
       if (i != 0) {
@@ -620,7 +624,7 @@ void cpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
     out_ << "};\n";
 
     if (inst->element_values()) {
-      out_ << "static const uint64_t values[] = {\n";
+      out_ << "static const uint64_t " << values_variable_name << "[] = {\n";
 
       for (uint64_t i = 0; i < inst->num_elements(); ++i) {
         if (i != 0) {
@@ -629,7 +633,8 @@ void cpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
         out_ << "  " << inst->element_values()[i];
       }
       out_ << "};\n";
-      values_variable_name = "values";
+    } else {
+      values_variable_name = "nullptr";
     }
   }
 
@@ -696,9 +701,12 @@ void cpp_gen::visit(const mfast::set_field_instruction *inst, void *pIndex)
   }
   else
   {
+    // several sets may be defined in the same scope of the generated source
+    if (pIndex)
+      elements_variable_name << prefix_string() << name << "_";
     elements_variable_name << "elements";
     num_elements_name << inst->num_elements();
-    out_ << "static const char* elements[] = {\n";
+    out_ << "static const char* " << elements_variable_name.str() << "[] = {\n";
     for (auto i = 0ul; i < inst->num_elements(); ++i)
     {
       if (i != 0)
-- 
2.43.0


From c96e19dd030661d006ac91196c4a9d82d53895b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:51 +0000
Subject: [PATCH 03/70] fix: initial values of inline enums and sets given by
 name

---
 src/mfast/xml_parser/field_builder.cpp | 62 +++++++++++---------------
 1 file changed, 27 insertions(+), 35 deletions(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 367d7ba..4964aa3 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -608,9 +608,6 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
       if (name_attr == nullptr)
         name_attr = xml_element->Attribute("name");
       if (name_attr != nullptr) {
-        if (init_value_str && std::strcmp(name_attr, init_value_str) == 0) {
-          fop.initial_value_.set<uint64_t>(names.size());
-        }
         names.push_back(string_dup(name_attr, alloc()));
 
         const char *value_str = xml_element->Attribute("value");
@@ -644,10 +641,11 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
       std::copy(values.begin(), values.end(), values_array);
       enum_element_values = values_array;
     }
-  } else if (init_value_str) {
-    // In this case, the element names are already defined, but we haven't
-    // decide what the specified
-    // initial value is.
+  }
+
+  if (init_value_str) {
+    // The element names are defined at this point, but we haven't decided what
+    // the specified initial value is.
 
     uint64_t init_value;
     if (parse_enum_value(enum_element_names, enum_element_values, num_elements,
@@ -713,9 +711,6 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
          xml_element = xml_element->NextSiblingElement("element")) {
       const char *name_attr = xml_element->Attribute("name");
       if (name_attr != nullptr) {
-        if (init_value_str && std::strcmp(name_attr, init_value_str) == 0) {
-          fop.initial_value_.set<uint64_t>(names.size());
-        }
         names.push_back(string_dup(name_attr, alloc()));
 
         const char *value_str = xml_element->Attribute("value");
@@ -745,10 +740,11 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
       std::copy(values.begin(), values.end(), values_array);
       enum_element_values = values_array;
     }
-  } else if (init_value_str) {
-    // In this case, the element names are already defined, but we haven't
-    // decide what the specified
-    // initial value is.
+  }
+
+  if (init_value_str) {
+    // The element names are defined at this point, but we haven't decided what
+    // the specified initial value is.
 
     uint64_t init_value;
     if (parse_enum_value(enum_element_names, enum_element_values, num_elements,
@@ -812,8 +808,6 @@ void field_builder::visit(const set_field_instruction *inst, void *)
         name_attr = xml_elt->Attribute("name");
       if (name_attr != nullptr)
       {
-        if (init_value_str && std::strcmp(name_attr, init_value_str) == 0)
-          fop.initial_value_.set<uint64_t>(1 << names.size());
         names.push_back(string_dup(name_attr, alloc()));
       }
     }
@@ -822,26 +816,24 @@ void field_builder::visit(const set_field_instruction *inst, void *)
       (alloc().allocate(names.size() * sizeof(const char*)));
     std::copy(names.begin(), names.end(), set_element_names);
   }
-  else
-    if (init_value_str)
+
+  if (init_value_str)
+  {
+    boost::optional<std::uint64_t> init_value;
+    try
     {
-      boost::optional<std::uint64_t> value_int;
-      try
-      {
-        value_int = std::stoul(init_value_str);
-      } catch (...) {}
-      if (value_int)
-        fop.initial_value_.set<uint64_t>(*value_int);
-      else
-      {
-        for (auto i = 0ul; i < num_elements; ++i)
-          if (std::strcmp(set_element_names[i], init_value_str) == 0)
-          {
-            fop.initial_value_.set<uint64_t>(1 << i);
-            break;
-          }
-      }
-    }
+      init_value = std::stoul(init_value_str);
+    } catch (...) {}
+    for (auto i = 0ul; !init_value && i < num_elements; ++i)
+      if (std::strcmp(set_element_names[i], init_value_str) == 0)
+        init_value = uint64_t(1) << i;
+    if (!init_value)
+      BOOST_THROW_EXCEPTION(
+          fast_static_error("Unrecognized set initial value : ")
+          << value_info(init_value_str));
+    fop.initial_value_ = value_storage(0); // reset the storage to defined value
+    fop.initial_value_.set<uint64_t>(*init_value);
+  }
 
   auto instruction = new (alloc()) set_field_instruction(
       fop.op_, get_presence(inst), get_id(inst), get_name(alloc()),
-- 
2.43.0


From dc3268f8d282c47e5aa1e6ab5885dc6b822867b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:54 +0000
Subject: [PATCH 04/70] fix: encoder dereferences a null pointer for an unknown
 template id

---
 src/mfast/coder/encoder/fast_encoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/coder/encoder/fast_encoder.cpp b/src/mfast/coder/encoder/fast_encoder.cpp
index 71403e2..ff62d7a 100644
--- a/src/mfast/coder/encoder/fast_encoder.cpp
+++ b/src/mfast/coder/encoder/fast_encoder.cpp
@@ -183,7 +183,7 @@ void fast_encoder_impl::visit(message_cref cref, bool force_reset) {
 
   uint32_t template_id = cref.id();
 
-  template_instruction *instruction = *this->find(template_id);
+  template_instruction *instruction = this->get_template(template_id);
 
   if (instruction != nullptr) {
     constexpr std::size_t template_id_bit = 1;
-- 
2.43.0


From 8215ccfbd8c33795da4cab8509d322c2c959189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:54 +0000
Subject: [PATCH 05/70] fix: absent top level fields bypass their field
 operator in the encoder

---
 src/mfast/coder/encoder/fast_encoder.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/mfast/coder/encoder/fast_encoder.cpp b/src/mfast/coder/encoder/fast_encoder.cpp
index ff62d7a..c9f448b 100644
--- a/src/mfast/coder/encoder/fast_encoder.cpp
+++ b/src/mfast/coder/encoder/fast_encoder.cpp
@@ -177,6 +177,17 @@ inline void fast_encoder_impl::visit(nested_message_cref cref, int) {
   active_message_id_ = saved_message_id;
 }
 
+/// The receiver supplies the default value of an absent field, unless it would
+/// then expect a mantissa which is not sent.
+static bool omitted_by_default(const field_cref &field) {
+  const field_instruction *inst = field.instruction();
+  if (field.present() || inst->field_operator() != operator_default)
+    return false;
+  return inst->field_type() != field_type_decimal ||
+         static_cast<const decimal_field_instruction *>(inst)
+                 ->mantissa_instruction() == nullptr;
+}
+
 void fast_encoder_impl::visit(message_cref cref, bool force_reset) {
   encoder_presence_map pmap;
   this->current_ = &pmap;
@@ -207,12 +218,11 @@ void fast_encoder_impl::visit(message_cref cref, bool force_reset) {
 
   aggregate_cref message(cref.field_storage(0), instruction);
 
-  for (auto &&field : message)
-  {
-    if (field.present() || field.instruction()->field_operator() == operator_none)
-      apply_accessor(*this, field);
-    else if (!field.present() && field.instruction()->pmap_size())
+  for (auto &&field : message) {
+    if (omitted_by_default(field))
       current_pmap().set_next_bit(false);
+    else
+      apply_accessor(*this, field);
   }
 
   pmap.commit();
-- 
2.43.0


From 95b6a7f07052a058bf68c2a3993c995bfae3b990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:54 +0000
Subject: [PATCH 06/70] fix: encode the length of an absent sequence through
 its field operator

---
 src/mfast/coder/encoder/fast_encoder.cpp       | 10 ----------
 src/mfast/coder/encoder_v2/fast_encoder_core.h | 14 +++-----------
 src/mfast/ext_ref.h                            |  5 ++++-
 3 files changed, 7 insertions(+), 22 deletions(-)

diff --git a/src/mfast/coder/encoder/fast_encoder.cpp b/src/mfast/coder/encoder/fast_encoder.cpp
index c9f448b..8b0f3bc 100644
--- a/src/mfast/coder/encoder/fast_encoder.cpp
+++ b/src/mfast/coder/encoder/fast_encoder.cpp
@@ -126,16 +126,6 @@ inline void fast_encoder_impl::visit(group_cref cref, int) {
 
 inline void fast_encoder_impl::visit(sequence_cref cref, int) {
 
-  if (cref.instruction()->optional() && !cref.present()) {
-    if (cref.instruction()->length_instruction()->pmap_size() > 0)
-      this->current_->set_next_bit(false);
-    if (cref.instruction()->length_instruction()->field_operator() != operator_constant &&
-        cref.instruction()->length_instruction()->field_operator() != operator_default &&
-        cref.instruction()->length_instruction()->field_operator() != operator_copy)
-      strm_.encode_null();
-    return;
-  }
-
   value_storage storage;
 
   uint32_mref length_mref(nullptr, &storage,
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index 5a00730..7973b4d 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -262,21 +262,13 @@ inline void fast_encoder_core::encode_field(const T &ext_ref, group_type_tag) {
 template <typename T>
 inline void fast_encoder_core::encode_field(const T &ext_ref,
                                             sequence_type_tag) {
-
-  if (ext_ref.get().instruction()->optional() && !ext_ref.present()) {
-    if (T::length_type::has_pmap_type::value)
-      this->current_->set_next_bit(false);
-    if(!std::is_same<typename T::length_type::operator_category, constant_operator_tag>::value &&
-       !std::is_same<typename T::length_type::operator_category, copy_operator_tag>::value &&
-       !std::is_same<typename T::length_type::operator_category, default_operator_tag>::value)
-      strm_.encode_null();
-    return;
-  }
-
   value_storage storage;
 
   typename T::length_type length = ext_ref.get_length(storage);
   this->visit(length);
+  if (!ext_ref.present())
+    return;
+
   std::size_t sz = length.get().value();
   for (std::size_t i = 0; i < sz; ++i) {
     this->visit(ext_ref[i]);
diff --git a/src/mfast/ext_ref.h b/src/mfast/ext_ref.h
index c4ef130..2213a65 100644
--- a/src/mfast/ext_ref.h
+++ b/src/mfast/ext_ref.h
@@ -158,7 +158,10 @@ public:
 
     uint32_mref length_mref(nullptr, &storage,
                             base_.instruction()->length_instruction());
-    length_mref.as(base_.size());
+    if (base_.present())
+      length_mref.as(base_.size());
+    else
+      length_mref.omit();
     return length_type(length_mref);
   }
 
-- 
2.43.0


From 9d27671f044860cf317e22017a0d1ca93c1995bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:54 +0000
Subject: [PATCH 07/70] fix: encoders confuse absent and empty values with
 previous or initial values

---
 .../coder/encoder/encoder_field_operator.cpp  | 49 ++++++++++---------
 .../coder/encoder_v2/fast_encoder_core.h      | 43 ++++++++++------
 src/mfast/decimal_ref.h                       |  7 ++-
 src/mfast/vector_ref.h                        | 10 ++--
 4 files changed, 63 insertions(+), 46 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_field_operator.cpp b/src/mfast/coder/encoder/encoder_field_operator.cpp
index 2dfbbab..fead799 100644
--- a/src/mfast/coder/encoder/encoder_field_operator.cpp
+++ b/src/mfast/coder/encoder/encoder_field_operator.cpp
@@ -253,24 +253,26 @@ public:
 struct is_same {
   template <typename T>
   bool operator()(const int_cref<T> &v, const value_storage &prev) const {
-    return v.absent() == prev.is_empty() && v.value() == prev.get<T>();
+    return v.absent() == prev.is_empty() &&
+           (v.absent() || v.value() == prev.get<T>());
   }
 
   bool operator()(const exponent_cref &v, const value_storage &prev) const {
     return v.absent() == prev.is_empty() &&
-           v.value() == prev.of_decimal.exponent_;
+           (v.absent() || v.value() == prev.of_decimal.exponent_);
   }
 
   bool operator()(const decimal_cref &v, const value_storage &prev) const {
     return v.absent() == prev.is_empty() &&
-           v.mantissa() == prev.of_decimal.mantissa_ &&
-           v.exponent() == prev.of_decimal.exponent_;
+           (v.absent() || (v.mantissa() == prev.of_decimal.mantissa_ &&
+                           v.exponent() == prev.of_decimal.exponent_));
   }
 
   template <typename T>
   bool operator()(const vector_cref<T> &v, const value_storage &prev) const {
-    return v.size() == prev.of_array.len_ - 1 &&
-           memcmp(v.data(), prev.of_array.content_, v.size() * sizeof(T)) == 0;
+    return v.absent() == prev.is_empty() && v.size() == prev.array_length() &&
+           (v.size() == 0 || memcmp(v.data(), prev.of_array.content_,
+                                    v.size() * sizeof(T)) == 0);
   }
 };
 
@@ -325,7 +327,8 @@ public:
 struct is_increment {
   template <typename T>
   bool operator()(const T &v, const value_storage &previous) const {
-    return v.value() == previous.get<const typename T::value_type>() + 1;
+    return v.present() &&
+           v.value() == previous.get<const typename T::value_type>() + 1;
   }
 };
 
@@ -592,25 +595,23 @@ private:
 
     value_storage &prev = previous_value_of(cref);
 
-    // if (cref.absent()) {
-    //   if (!prev.is_defined() || prev.is_empty()) {
-    //     pmap.set_next_bit(false);
-    //   }
-    //   else {
-    //     pmap.set_next_bit(true);
-    //     stream.encode_null();
-    //   }
-    // }
-    // else
-    if (is_same()(cref, tail_base_value_of(cref))) {
+    // When there is no tail value in the stream the value of the field is
+    //  * assigned - the previous value,
+    //  * undefined - the initial value, or absent if there is none,
+    //  * empty - absent.
+    bool omit_tail;
+    if (!prev.is_defined())
+      omit_tail = cref.is_initial_value();
+    else if (prev.is_empty())
+      omit_tail = cref.absent();
+    else
+      omit_tail = is_same()(cref, prev);
+
+    if (omit_tail) {
       pmap.set_next_bit(false);
     } else if (cref.absent()) {
-      if (prev.is_defined() && prev.is_empty()) {
-        pmap.set_next_bit(false);
-      } else {
-        pmap.set_next_bit(true);
-        stream.encode_null();
-      }
+      pmap.set_next_bit(true);
+      stream.encode_null();
     } else {
       pmap.set_next_bit(true);
 
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index 7973b4d..929e4a9 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -15,29 +15,31 @@ namespace mfast {
 namespace coder {
 template <typename T>
 inline bool equivalent(const int_cref<T> &v, const value_storage &prev) {
-  return v.absent() == prev.is_empty() && v.value() == prev.get<T>();
+  return v.absent() == prev.is_empty() &&
+         (v.absent() || v.value() == prev.get<T>());
 }
 
 inline bool equivalent(const exponent_cref &v, const value_storage &prev) {
   return v.absent() == prev.is_empty() &&
-         v.value() == prev.of_decimal.exponent_;
+         (v.absent() || v.value() == prev.of_decimal.exponent_);
 }
 
 inline bool equivalent(const decimal_cref &v, const value_storage &prev) {
   return v.absent() == prev.is_empty() &&
-         v.mantissa() == prev.of_decimal.mantissa_ &&
-         v.exponent() == prev.of_decimal.exponent_;
+         (v.absent() || (v.mantissa() == prev.of_decimal.mantissa_ &&
+                         v.exponent() == prev.of_decimal.exponent_));
 }
 
 inline bool equivalent(const enum_cref &v, const value_storage &prev) {
   return v.absent() == prev.is_empty() &&
-         v.value() == prev.of_uint64.content_;
+         (v.absent() || v.value() == prev.of_uint64.content_);
 }
 
 template <typename T>
 inline bool equivalent(const vector_cref<T> &v, const value_storage &prev) {
-  return v.size() == prev.of_array.len_ - 1 &&
-         memcmp(v.data(), prev.of_array.content_, v.size() * sizeof(T)) == 0;
+  return v.absent() == prev.is_empty() && v.size() == prev.array_length() &&
+         (v.size() == 0 || memcmp(v.data(), prev.of_array.content_,
+                                  v.size() * sizeof(T)) == 0);
 }
 
 struct fast_encoder_core;
@@ -438,8 +440,9 @@ void fast_encoder_core::encode_field(const T &ext_ref, increment_operator_tag,
       // modified by another instruction with the same key and that intruction
       // has optional presence.
     }
-  } else if (cref.value() ==
-             previous.get<const typename T::cref_type::value_type>() + 1) {
+  } else if (ext_ref.present() &&
+             cref.value() ==
+                 previous.get<const typename T::cref_type::value_type>() + 1) {
     pmap.set_next_bit(false);
     return;
   }
@@ -608,15 +611,23 @@ void fast_encoder_core::encode_field(const T &ext_ref, tail_operator_tag,
 
   value_storage &prev = previous_value_of(cref);
 
-  if (equivalent(cref, tail_base_value_of(cref))) {
+  // When there is no tail value in the stream the value of the field is
+  //  * assigned - the previous value,
+  //  * undefined - the initial value, or absent if there is none,
+  //  * empty - absent.
+  bool omit_tail;
+  if (!prev.is_defined())
+    omit_tail = cref.is_initial_value();
+  else if (prev.is_empty())
+    omit_tail = cref.absent();
+  else
+    omit_tail = equivalent(cref, prev);
+
+  if (omit_tail) {
     pmap.set_next_bit(false);
   } else if (!ext_ref.present()) {
-    if (prev.is_defined() && prev.is_empty()) {
-      pmap.set_next_bit(false);
-    } else {
-      pmap.set_next_bit(true);
-      strm_.encode_null();
-    }
+    pmap.set_next_bit(true);
+    strm_.encode_null();
   } else {
     pmap.set_next_bit(true);
 
diff --git a/src/mfast/decimal_ref.h b/src/mfast/decimal_ref.h
index 1397d4b..20ad467 100644
--- a/src/mfast/decimal_ref.h
+++ b/src/mfast/decimal_ref.h
@@ -178,8 +178,11 @@ inline bool operator!=(const decimal_cref &lhs, const decimal_cref &rhs) {
   return !(lhs == rhs);
 }
 inline bool decimal_cref::is_initial_value() const {
-  return *this == decimal_cref(&this->instruction()->initial_value(),
-                               this->instruction());
+  const value_storage &initial = this->instruction()->initial_value();
+  return this->absent() == initial.is_empty() &&
+         (this->absent() ||
+          (this->mantissa() == initial.of_decimal.mantissa_ &&
+           this->exponent() == initial.of_decimal.exponent_));
 }
 
 class exponent_mref : public exponent_cref {
diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index c453bc4..d5e0461 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -61,8 +61,10 @@ public:
   size_t size() const { return storage_->array_length(); }
   size_t length() const { return size(); }
   bool is_initial_value() const {
-    return *this == vector_cref_base<T, InstructionType>(
-                        &this->instruction()->initial_value(), instruction());
+    const value_storage &initial = this->instruction()->initial_value();
+    return this->absent() == initial.is_empty() &&
+           (this->absent() ||
+            *this == vector_cref_base<T, InstructionType>(&initial, instruction()));
   }
 
   const_iterator begin() const { return data(); }
@@ -109,9 +111,9 @@ bool operator==(const vector_cref_base<T, InstructionType> &lhs,
                 const vector_cref_base<T, InstructionType> &rhs) {
   if (lhs.size() != rhs.size())
     return false;
-  if (lhs.data() == rhs.data())
+  if (lhs.size() == 0 || lhs.data() == rhs.data())
     return true;
-  return std::memcmp(lhs.data(), rhs.data(), lhs.size()) == 0;
+  return std::memcmp(lhs.data(), rhs.data(), lhs.size() * sizeof(T)) == 0;
 }
 
 template <typename T, typename InstructionType>
-- 
2.43.0


From 6d8cf3e8303eb0d152d5b8560d2b234aa500ec5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:54 +0000
Subject: [PATCH 08/70] fix: string delta encoding reads past the end of a
 shorter base value

---
 src/mfast/coder/encoder/encoder_field_operator.cpp | 6 ++++--
 src/mfast/coder/encoder_v2/fast_encoder_core.h     | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_field_operator.cpp b/src/mfast/coder/encoder/encoder_field_operator.cpp
index fead799..e732a8f 100644
--- a/src/mfast/coder/encoder/encoder_field_operator.cpp
+++ b/src/mfast/coder/encoder/encoder_field_operator.cpp
@@ -475,11 +475,13 @@ class delta_operator : public encoder_field_operator,
         difference_type;
 
     std::pair<const_iterator, const_iterator> common_prefix_positions =
-        std::mismatch(cref.begin(), cref.end(), prev_cref.begin());
+        std::mismatch(cref.begin(), cref.end(), prev_cref.begin(),
+                      prev_cref.end());
 
     std::pair<const_reverse_iterator, const_reverse_iterator>
         common_suffix_positions =
-            std::mismatch(cref.rbegin(), cref.rend(), prev_cref.rbegin());
+            std::mismatch(cref.rbegin(), cref.rend(), prev_cref.rbegin(),
+                          prev_cref.rend());
 
     int32_t substraction_len;
     const_iterator delta_iterator;
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index 929e4a9..32fb2bc 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -537,11 +537,13 @@ void fast_encoder_core::encode_field(const T &ext_ref, delta_operator_tag,
       difference_type;
 
   std::pair<const_iterator, const_iterator> common_prefix_positions =
-      std::mismatch(cref.begin(), cref.end(), prev_cref.begin());
+      std::mismatch(cref.begin(), cref.end(), prev_cref.begin(),
+                    prev_cref.end());
 
   std::pair<const_reverse_iterator, const_reverse_iterator>
       common_suffix_positions =
-          std::mismatch(cref.rbegin(), cref.rend(), prev_cref.rbegin());
+          std::mismatch(cref.rbegin(), cref.rend(), prev_cref.rbegin(),
+                        prev_cref.rend());
 
   int32_t substraction_len;
   const_iterator delta_iterator;
-- 
2.43.0


From 5f08895adab74623dac6412dab05d83e8f3e6bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:54 +0000
Subject: [PATCH 09/70] fix: integer deltas are computed in the width of the
 field

---
 src/mfast/coder/encoder/encoder_field_operator.cpp | 3 ++-
 src/mfast/coder/encoder_v2/fast_encoder_core.h     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_field_operator.cpp b/src/mfast/coder/encoder/encoder_field_operator.cpp
index e732a8f..f7fe9e3 100644
--- a/src/mfast/coder/encoder/encoder_field_operator.cpp
+++ b/src/mfast/coder/encoder/encoder_field_operator.cpp
@@ -451,7 +451,8 @@ class delta_operator : public encoder_field_operator,
       value_storage bv = delta_base_value_of(cref);
       T base(&bv, nullptr);
 
-      int64_t delta = static_cast<int64_t>(cref.value() - base.value());
+      int64_t delta = static_cast<int64_t>(static_cast<uint64_t>(cref.value()) -
+                                           static_cast<uint64_t>(base.value()));
 
       stream.encode(delta, false, cref.instruction()->is_nullable());
       stream.save_previous_value(cref);
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index 32fb2bc..f56b0f5 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -511,7 +511,8 @@ void fast_encoder_core::encode_field(const T &ext_ref, delta_operator_tag,
     value_storage bv = delta_base_value_of(cref);
     typename T::cref_type base(&bv, nullptr);
 
-    int64_t delta = static_cast<int64_t>(cref.value() - base.value());
+    int64_t delta = static_cast<int64_t>(static_cast<uint64_t>(cref.value()) -
+                                         static_cast<uint64_t>(base.value()));
 
     strm_.encode(delta, false, ext_ref.nullable());
     strm_.save_previous_value(cref);
-- 
2.43.0


From e8f042eab3dd3eb020e02bf1a074e7c26809afef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:33 +0000
Subject: [PATCH 10/70] fix: output buffers need one byte more than the encoded
 message

---
 src/mfast/coder/encoder/fast_ostreambuf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfast/coder/encoder/fast_ostreambuf.h b/src/mfast/coder/encoder/fast_ostreambuf.h
index 7d7b98f..655f216 100644
--- a/src/mfast/coder/encoder/fast_ostreambuf.h
+++ b/src/mfast/coder/encoder/fast_ostreambuf.h
@@ -54,7 +54,7 @@ inline void fast_ostreambuf::sputc(char c) {
 }
 
 inline void fast_ostreambuf::sputn(const char *data, std::size_t n) {
-  while (pptr_ + n >= epptr_)
+  while (static_cast<std::size_t>(epptr_ - pptr_) < n)
     overflow(n);
 
   std::copy(data, data + n, pptr_);
@@ -62,7 +62,7 @@ inline void fast_ostreambuf::sputn(const char *data, std::size_t n) {
 }
 
 inline void fast_ostreambuf::skip(std::size_t n) {
-  while (pptr_ + n >= epptr_)
+  while (static_cast<std::size_t>(epptr_ - pptr_) < n)
     overflow(n);
   pptr_ += n;
 }
-- 
2.43.0


From 93cd200edbdb900bc6c8b32774f00c684cf38e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:33 +0000
Subject: [PATCH 11/70] fix: shrinking a presence map touches bytes in front of
 it

---
 src/mfast/coder/encoder/encoder_presence_map.h | 10 ++++++----
 src/mfast/coder/encoder/fast_ostream.h         |  8 +++++---
 src/mfast/coder/encoder/fast_ostreambuf.cpp    | 10 ++++------
 src/mfast/coder/encoder/fast_ostreambuf.h      |  3 ++-
 4 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_presence_map.h b/src/mfast/coder/encoder/encoder_presence_map.h
index ab8be89..ba8dfc5 100644
--- a/src/mfast/coder/encoder/encoder_presence_map.h
+++ b/src/mfast/coder/encoder/encoder_presence_map.h
@@ -33,18 +33,19 @@ private:
   std::size_t value_, mask_;
   fast_ostream *stream_;
   std::size_t offset_;
+  std::size_t begin_; // where the first byte of the map is in the stream
   std::size_t maxbytes_;
 };
 
 inline encoder_presence_map::encoder_presence_map()
-    : stream_(nullptr), offset_(0), maxbytes_(0) {
+    : stream_(nullptr), offset_(0), begin_(0), maxbytes_(0) {
   reset();
 }
 
 inline void encoder_presence_map::init(fast_ostream *stream,
                                        std::size_t maxbits) {
   stream_ = stream;
-  offset_ = stream->offset();
+  begin_ = offset_ = stream->offset();
   maxbytes_ = (maxbits + 6) / 7; // i.e. ceiling(maxbits/7)
   stream_->buf_->skip(maxbytes_);
 }
@@ -63,7 +64,7 @@ inline void encoder_presence_map::commit() {
 #endif
 
   value_ |= stop_bit_mask;
-  stream_->write_bytes_at(&value_, ++nbytes_, offset_, true);
+  stream_->write_bytes_at(&value_, ++nbytes_, offset_, true, begin_);
 }
 
 inline BOOST_CONSTEXPR std::size_t get_next_bit_mask(std::size_t i) {
@@ -86,7 +87,8 @@ inline void encoder_presence_map::set_next_bit(bool v) {
 
   if (mask_ == 0) {
     // we need to commit the current pmap before preceed
-    stream_->write_bytes_at(&value_, sizeof(std::size_t), offset_, false);
+    stream_->write_bytes_at(&value_, sizeof(std::size_t), offset_, false,
+                            begin_);
     offset_ += sizeof(std::size_t);
     maxbytes_ -= sizeof(std::size_t);
     reset();
diff --git a/src/mfast/coder/encoder/fast_ostream.h b/src/mfast/coder/encoder/fast_ostream.h
index cd9aaba..bfd40cd 100644
--- a/src/mfast/coder/encoder/fast_ostream.h
+++ b/src/mfast/coder/encoder/fast_ostream.h
@@ -46,7 +46,8 @@ private:
   friend class encoder_presence_map;
 
   void write_bytes_at(std::size_t *bytes, std::size_t nbytes,
-                      std::size_t offset, bool pmap_end);
+                      std::size_t offset, bool pmap_end,
+                      std::size_t pmap_begin);
 
   std::size_t offset() const { return rdbuf()->length(); }
   fast_ostreambuf *buf_;
@@ -239,9 +240,10 @@ inline void fast_ostream::save_previous_value(const T &cref) const {
 }
 
 inline void fast_ostream::write_bytes_at(std::size_t *bytes, std::size_t nbytes,
-                                         std::size_t offset, bool pmap_end) {
+                                         std::size_t offset, bool pmap_end,
+                                         std::size_t pmap_begin) {
   rdbuf()->write_bytes_at(reinterpret_cast<const char *>(bytes), nbytes, offset,
-                          pmap_end && !allow_overlong_pmap_);
+                          pmap_end && !allow_overlong_pmap_, pmap_begin);
 }
 
 inline void fast_ostream::encode_null() { rdbuf()->sputc('\x80'); }
diff --git a/src/mfast/coder/encoder/fast_ostreambuf.cpp b/src/mfast/coder/encoder/fast_ostreambuf.cpp
index 5492f7f..015777e 100644
--- a/src/mfast/coder/encoder/fast_ostreambuf.cpp
+++ b/src/mfast/coder/encoder/fast_ostreambuf.cpp
@@ -15,20 +15,18 @@ void fast_ostreambuf::overflow(std::size_t) { throw buffer_overflow_error(); }
 std::size_t fast_ostreambuf::length() const { return pptr_ - pbase_; }
 
 void fast_ostreambuf::write_bytes_at(const char *data, std::size_t n,
-                                     std::size_t offset, bool shrink) {
+                                     std::size_t offset, bool shrink,
+                                     std::size_t shrink_limit) {
   assert((pbase_ + offset + n) <= pptr_);
   std::copy(data, data + n, pbase_ + offset);
 
   if (shrink) {
     std::size_t index = offset + n - 1;
-    if (pbase_[index] == '\x80') {
+    if (pbase_[index] == '\x80' && index > shrink_limit) {
       --index;
-      for (; index > 0 && pbase_[index] == 0; --index)
+      for (; index > shrink_limit && pbase_[index] == 0; --index)
         ;
 
-      if (pbase_[index] & '\x80') {
-        ++index;
-      }
       pbase_[index] |= '\x80';
       ++index;
       const char *src = pbase_ + offset + n;
diff --git a/src/mfast/coder/encoder/fast_ostreambuf.h b/src/mfast/coder/encoder/fast_ostreambuf.h
index 655f216..a680e80 100644
--- a/src/mfast/coder/encoder/fast_ostreambuf.h
+++ b/src/mfast/coder/encoder/fast_ostreambuf.h
@@ -28,7 +28,8 @@ public:
 
   virtual std::size_t length() const;
   virtual void write_bytes_at(const char *data, std::size_t n,
-                              std::size_t offset, bool shrink);
+                              std::size_t offset, bool shrink,
+                              std::size_t shrink_limit);
 
   const char *pbase() const { return pbase_; }
 
-- 
2.43.0


From 96d66623e7c99af2f00a046eadc58f11390537bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:33 +0000
Subject: [PATCH 12/70] fix: force_reset does not reset the template identifier

---
 src/mfast/coder/encoder/fast_encoder.cpp         | 6 ++++++
 src/mfast/coder/encoder_v2/fast_encoder_core.cpp | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/src/mfast/coder/encoder/fast_encoder.cpp b/src/mfast/coder/encoder/fast_encoder.cpp
index 8b0f3bc..155dd54 100644
--- a/src/mfast/coder/encoder/fast_encoder.cpp
+++ b/src/mfast/coder/encoder/fast_encoder.cpp
@@ -198,6 +198,12 @@ void fast_encoder_impl::visit(message_cref cref, bool force_reset) {
   if (force_reset || instruction->has_reset_attribute())
     this->reset_dictionary();
 
+  if (force_reset) {
+    // a decoder which joins at this point does not know any template id
+    template_instruction **entry = this->unique_entry();
+    active_message_id_ = entry ? static_cast<int64_t>((*entry)->id()) : -1;
+  }
+
   bool need_encode_template_id = (active_message_id_ != template_id);
   current_pmap().set_next_bit(need_encode_template_id);
 
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.cpp b/src/mfast/coder/encoder_v2/fast_encoder_core.cpp
index c18231a..9157f02 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.cpp
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.cpp
@@ -20,6 +20,11 @@ void fast_encoder_core::encode_segment(const message_cref cref,
   if (force_reset || instruction->has_reset_attribute())
     repo_.reset_dictionary();
 
+  if (force_reset) {
+    // a decoder which joins at this point does not know any template id
+    active_message_info_ = repo_.unique_entry();
+  }
+
   bool need_encode_template_id = (active_message_info_ != info);
 
   encoder_presence_map pmap;
-- 
2.43.0


From 1b3ba265d62e575ca259e153b97e924312a218a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:17 +0000
Subject: [PATCH 13/70] fix: fast_encoder_v2 lets the receiver default the
 length or exponent of an absent field

The receiver would then expect sequence elements or a mantissa which are not sent.
---
 .../coder/encoder_v2/fast_encoder_core.h      | 38 +++++++++++++++++--
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index f56b0f5..3683446 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -82,6 +82,13 @@ struct MFAST_CODER_EXPORT fast_encoder_core : mfast::detail::codec_helper {
   template <typename T>
   void encode_field(const T &ext_ref, split_decimal_type_tag);
 
+  /// Encode the absence of a field which determines what follows in the stream
+  template <typename T, typename Operator>
+  void encode_absent(const T &ext_ref, Operator);
+
+  template <typename T>
+  void encode_absent(const T &ext_ref, default_operator_tag);
+
   template <typename T>
   void encode_field(const T &ext_ref, int_vector_type_tag);
 
@@ -225,9 +232,30 @@ template <typename T>
 inline void fast_encoder_core::encode_field(const T &ext_ref,
                                             split_decimal_type_tag) {
   typename T::exponent_type exponent_ref = ext_ref.get_exponent();
+  if (!exponent_ref.present()) {
+    this->encode_absent(exponent_ref,
+                        typename T::exponent_type::operator_category());
+    return;
+  }
   this->visit(exponent_ref);
-  if (exponent_ref.present()) {
-    this->visit(ext_ref.get_mantissa());
+  this->visit(ext_ref.get_mantissa());
+}
+
+template <typename T, typename Operator>
+inline void fast_encoder_core::encode_absent(const T &ext_ref, Operator) {
+  this->visit(ext_ref);
+}
+
+template <typename T>
+inline void fast_encoder_core::encode_absent(const T &ext_ref,
+                                             default_operator_tag) {
+  // the default value must not be supplied by the receiver because it would
+  // then expect the sequence elements or the mantissa
+  if (ext_ref.get().is_initial_value()) {
+    this->visit(ext_ref);
+  } else {
+    current_->set_next_bit(true);
+    strm_.encode_null();
   }
 }
 
@@ -267,9 +295,11 @@ inline void fast_encoder_core::encode_field(const T &ext_ref,
   value_storage storage;
 
   typename T::length_type length = ext_ref.get_length(storage);
-  this->visit(length);
-  if (!ext_ref.present())
+  if (!ext_ref.present()) {
+    this->encode_absent(length, typename T::length_type::operator_category());
     return;
+  }
+  this->visit(length);
 
   std::size_t sz = length.get().value();
   for (std::size_t i = 0; i < sz; ++i) {
-- 
2.43.0


From cc4c098ac2d663fdddd213f5aee521c5a913bc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:15 +0000
Subject: [PATCH 14/70] fix: absent and empty strings are confused when they
 are written

---
 .../coder/encoder/fast_ostream_inserter.h     | 28 +++++++++++++++----
 .../coder/encoder_v2/fast_ostream_inserter.h  | 16 +++++++----
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/mfast/coder/encoder/fast_ostream_inserter.h b/src/mfast/coder/encoder/fast_ostream_inserter.h
index 77d2ce8..70f8054 100644
--- a/src/mfast/coder/encoder/fast_ostream_inserter.h
+++ b/src/mfast/coder/encoder/fast_ostream_inserter.h
@@ -11,6 +11,19 @@
 #include "fast_ostream.h"
 
 namespace mfast {
+namespace detail {
+/// A null pointer stands for an absent value; an empty value has to be
+/// distinguishable from it.
+template <typename T>
+inline const typename T::value_type *string_data(const T &cref,
+                                                 bool nullable) {
+  static const typename T::value_type empty = 0;
+  if (cref.absent() && nullable)
+    return nullptr;
+  return cref.size() == 0 ? &empty : cref.begin();
+}
+}
+
 template <typename U>
 inline fast_ostream &operator<<(fast_ostream &strm, const int_cref<U> &cref) {
   strm.encode(cref.value(), cref.absent(), cref.instruction()->is_nullable());
@@ -24,22 +37,25 @@ inline fast_ostream &operator<<(fast_ostream &strm, const exponent_cref &cref) {
 
 inline fast_ostream &operator<<(fast_ostream &strm,
                                 const ascii_string_cref &cref) {
-  strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
-              cref.instruction(), cref.instruction()->is_nullable());
+  bool nullable = cref.instruction()->is_nullable();
+  strm.encode(detail::string_data(cref, nullable),
+              static_cast<uint32_t>(cref.size()), cref.instruction(), nullable);
   return strm;
 }
 
 inline fast_ostream &operator<<(fast_ostream &strm,
                                 const unicode_string_cref &cref) {
-  strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
-              cref.instruction(), cref.instruction()->is_nullable());
+  bool nullable = cref.instruction()->is_nullable();
+  strm.encode(detail::string_data(cref, nullable),
+              static_cast<uint32_t>(cref.size()), cref.instruction(), nullable);
   return strm;
 }
 
 inline fast_ostream &operator<<(fast_ostream &strm,
                                 const byte_vector_cref &cref) {
-  strm.encode(cref.begin(), static_cast<uint32_t>(cref.size()),
-              cref.instruction(), cref.instruction()->is_nullable());
+  bool nullable = cref.instruction()->is_nullable();
+  strm.encode(detail::string_data(cref, nullable),
+              static_cast<uint32_t>(cref.size()), cref.instruction(), nullable);
   return strm;
 }
 
diff --git a/src/mfast/coder/encoder_v2/fast_ostream_inserter.h b/src/mfast/coder/encoder_v2/fast_ostream_inserter.h
index e99548a..a3c92cb 100644
--- a/src/mfast/coder/encoder_v2/fast_ostream_inserter.h
+++ b/src/mfast/coder/encoder_v2/fast_ostream_inserter.h
@@ -4,6 +4,7 @@
 #include "../../decimal_ref.h"
 #include "../../ext_ref.h"
 #include "../encoder/fast_ostream.h"
+#include "../encoder/fast_ostream_inserter.h"
 
 namespace mfast {
 namespace coder {
@@ -19,8 +20,9 @@ inline fast_ostream &
 operator<<(fast_ostream &strm,
            const ext_cref<ascii_string_cref, Operator, Properties> &ext_ref) {
   ascii_string_cref cref = ext_ref.get();
-  strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
-              cref.instruction(), ext_ref.nullable());
+  strm.encode(mfast::detail::string_data(cref, ext_ref.nullable()),
+              static_cast<uint32_t>(cref.size()), cref.instruction(),
+              ext_ref.nullable());
   return strm;
 }
 
@@ -29,8 +31,9 @@ inline fast_ostream &
 operator<<(fast_ostream &strm,
            const ext_cref<unicode_string_cref, Operator, Properties> &ext_ref) {
   unicode_string_cref cref = ext_ref.get();
-  strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
-              cref.instruction(), ext_ref.nullable());
+  strm.encode(mfast::detail::string_data(cref, ext_ref.nullable()),
+              static_cast<uint32_t>(cref.size()), cref.instruction(),
+              ext_ref.nullable());
   return strm;
 }
 
@@ -39,8 +42,9 @@ inline fast_ostream &
 operator<<(fast_ostream &strm,
            const ext_cref<byte_vector_cref, Operator, Properties> &ext_ref) {
   byte_vector_cref cref = ext_ref.get();
-  strm.encode(cref.begin(), static_cast<uint32_t>(cref.size()),
-              cref.instruction(), ext_ref.nullable());
+  strm.encode(mfast::detail::string_data(cref, ext_ref.nullable()),
+              static_cast<uint32_t>(cref.size()), cref.instruction(),
+              ext_ref.nullable());
   return strm;
 }
 
-- 
2.43.0


From 769bb4883cb332cdad37db01597d06a57a60b32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:18 +0000
Subject: [PATCH 15/70] fix: decoders read and allocate beyond the end of a
 truncated buffer

Strings, byte vectors, presence maps and peeked bytes are now checked against the end of the buffer, and vectors and sequences make only room for as many elements as the rest of the buffer can hold.
---
 .../coder/decoder/decoder_presence_map.h      |  2 ++
 src/mfast/coder/decoder/fast_decoder.cpp      | 22 +++++++++++++------
 src/mfast/coder/decoder/fast_istream.h        | 12 ++++++++++
 src/mfast/coder/decoder/fast_istreambuf.h     | 13 ++++++++---
 .../coder/decoder_v2/fast_decoder_core.h      | 14 ++++++++++--
 5 files changed, 51 insertions(+), 12 deletions(-)

diff --git a/src/mfast/coder/decoder/decoder_presence_map.h b/src/mfast/coder/decoder/decoder_presence_map.h
index 48b04d4..d2ac23a 100644
--- a/src/mfast/coder/decoder/decoder_presence_map.h
+++ b/src/mfast/coder/decoder/decoder_presence_map.h
@@ -28,6 +28,8 @@ public:
 
   bool load(fast_istreambuf &buf) {
     const char *addr = buf.gptr();
+    // make sure that the stop bit is inside the buffer
+    buf.get_entity_length();
     bool result = load(addr);
     buf.gbump(addr - buf.gptr());
     return result;
diff --git a/src/mfast/coder/decoder/fast_decoder.cpp b/src/mfast/coder/decoder/fast_decoder.cpp
index 68c2c95..72fd325 100644
--- a/src/mfast/coder/decoder/fast_decoder.cpp
+++ b/src/mfast/coder/decoder/fast_decoder.cpp
@@ -3,6 +3,7 @@
 //
 // This file is part of mFAST.
 // See the file license.txt for licensing information.
+#include <algorithm>
 #include <boost/container/map.hpp>
 #include "../fast_decoder.h"
 #include "../../field_visitor.h"
@@ -128,6 +129,8 @@ void fast_decoder_impl::visit(const int_vector_mref<IntType> &mref) {
     return;
   }
 
+  // every element occupies at least one byte
+  strm_.require(length);
   mref.resize(length);
   for (uint32_t i = 0; i < length; ++i) {
     strm_.decode(mref[i], false);
@@ -180,17 +183,22 @@ inline void fast_decoder_impl::visit(const sequence_mref &mref, int) {
 
   if (length_mref.present()) {
     debug_ << "  decoded sequence length " << length_mref.value() << "\n";
-    mref.resize(length_mref.value());
+
+    // never make room for more elements than the rest of the buffer may hold
+    const std::size_t length = length_mref.value();
+    std::size_t i = 0;
+    mref.resize(std::min(length, strm_.in_avail()));
+    while (i < length) {
+      if (i == mref.size())
+        mref.resize(std::min(
+            length, i + std::max<std::size_t>(strm_.in_avail(), i + 1)));
+      this->visit(mref[i], static_cast<int>(i));
+      ++i;
+    }
   } else {
     debug_ << "  " << mref.name() << "is absent\n";
     mref.omit();
   }
-  if (length_mref.present() && length_mref.value() > 0) {
-    int i = 0;
-    for (auto &&elem : mref) {
-      this->visit(elem, i++);
-    }
-  }
 }
 
 inline void fast_decoder_impl::visit(const sequence_element_mref &mref,
diff --git a/src/mfast/coder/decoder/fast_istream.h b/src/mfast/coder/decoder/fast_istream.h
index 7a4b844..cda8b6c 100644
--- a/src/mfast/coder/decoder/fast_istream.h
+++ b/src/mfast/coder/decoder/fast_istream.h
@@ -32,6 +32,16 @@ public:
   enable_if_t<std::is_integral<T>::value, bool> decode(T &result,
                                                        Nullable nullable);
 
+  /**
+   * Throw an exception if there are not at least @a n bytes left.
+   **/
+  void require(std::size_t n) const { buf_->require(n); }
+
+  /**
+   * The number of bytes left.
+   **/
+  std::size_t in_avail() const { return buf_->in_avail(); }
+
   void decode(decoder_presence_map &pmap) {
     if (!pmap.load(*buf_)) {
       while (0 == (buf_->sbumpc() & 0x80))
@@ -99,6 +109,7 @@ public:
               const unicode_field_instruction * /* instruction */,
               Nullable nullable) {
     if (this->decode(len, nullable)) {
+      buf_->require(len);
       bv = buf_->gptr();
       buf_->gbump(len);
       return true;
@@ -119,6 +130,7 @@ public:
               const byte_vector_field_instruction * /* instruction */,
               Nullable nullable) {
     if (this->decode(len, nullable)) {
+      buf_->require(len);
       bv = reinterpret_cast<const unsigned char *>(buf_->gptr());
       buf_->gbump(len);
       return true;
diff --git a/src/mfast/coder/decoder/fast_istreambuf.h b/src/mfast/coder/decoder/fast_istreambuf.h
index 39c6425..3fccadd 100644
--- a/src/mfast/coder/decoder/fast_istreambuf.h
+++ b/src/mfast/coder/decoder/fast_istreambuf.h
@@ -39,13 +39,20 @@ protected:
   friend struct coder::fast_decoder_base;
 
   void gbump(std::ptrdiff_t n) { gptr_ += n; }
-  unsigned char sbumpc() {
-    if (in_avail() < 1)
+  // throw if there are not at least n bytes left
+  void require(std::size_t n) const {
+    if (in_avail() < n)
       BOOST_THROW_EXCEPTION(fast_dynamic_error("Buffer underflow"));
+  }
+  unsigned char sbumpc() {
+    require(1);
     return *(gptr_++);
   }
 
-  char sgetc() const { return *gptr_; }
+  char sgetc() const {
+    require(1);
+    return *gptr_;
+  }
   const char *egptr() { return egptr_; }
   const char *gptr_, *egptr_;
 };
diff --git a/src/mfast/coder/decoder_v2/fast_decoder_core.h b/src/mfast/coder/decoder_v2/fast_decoder_core.h
index e2ec220..e6dbcef 100644
--- a/src/mfast/coder/decoder_v2/fast_decoder_core.h
+++ b/src/mfast/coder/decoder_v2/fast_decoder_core.h
@@ -17,6 +17,7 @@
 #include "../common/codec_helper.h"
 #include "../decoder/fast_istream.h"
 #include "fast_istream_extractor.h"
+#include <algorithm>
 #include <vector>
 namespace mfast {
 namespace coder {
@@ -220,6 +221,8 @@ inline void fast_decoder_base::decode_field(const T &ext_ref,
     return;
   }
 
+  // every element occupies at least one byte
+  this->strm_.require(length);
   mref.resize(length);
   for (uint32_t i = 0; i < length; ++i) {
     this->strm_.decode(mref[i], false_type());
@@ -251,10 +254,17 @@ inline void fast_decoder_base::decode_field(const T &ext_ref,
   this->visit(length);
 
   if (length.present()) {
-    std::size_t len = length.get().value();
-    ext_ref.set().resize(len);
+    // never make room for more elements than the rest of the buffer may hold
+    const std::size_t len = length.get().value();
+    std::size_t reserved = std::min(len, this->strm_.in_avail());
+    ext_ref.set().resize(reserved);
 
     for (std::size_t i = 0; i < len; ++i) {
+      if (i == reserved) {
+        reserved = std::min(
+            len, i + std::max<std::size_t>(this->strm_.in_avail(), i + 1));
+        ext_ref.set().resize(reserved);
+      }
       this->visit(ext_ref[i]);
     }
   } else {
-- 
2.43.0


From 05af90148151c15377f3e4fa4f280135776c4f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:58 +0000
Subject: [PATCH 16/70] fix: nested messages without a template id and failures
 inside of nested messages

The decoders left a nested target unset or its fields unconstructed, and kept the nested template as active template when an exception was thrown.
---
 src/mfast/coder/decoder/fast_decoder.cpp      | 18 +++++--
 .../coder/decoder_v2/fast_decoder_core.h      | 18 ++++---
 .../instructions/templateref_instruction.cpp  | 48 ++++++++++++-------
 3 files changed, 54 insertions(+), 30 deletions(-)

diff --git a/src/mfast/coder/decoder/fast_decoder.cpp b/src/mfast/coder/decoder/fast_decoder.cpp
index 72fd325..af76597 100644
--- a/src/mfast/coder/decoder/fast_decoder.cpp
+++ b/src/mfast/coder/decoder/fast_decoder.cpp
@@ -95,6 +95,7 @@ struct fast_decoder_impl {
 
 inline fast_decoder_impl::fast_decoder_impl(mfast::allocator *alloc)
     : repo_(info_entry_converter(alloc)), message_alloc_(alloc), strm_(nullptr),
+      active_message_(nullptr), force_reset_(false), current_(nullptr),
       warning_log_(nullptr) {}
 
 fast_decoder_impl::~fast_decoder_impl() {}
@@ -221,7 +222,13 @@ inline void fast_decoder_impl::visit(const sequence_element_mref &mref,
 
 inline void fast_decoder_impl::visit(const nested_message_mref &mref, int) {
   pmap_state state;
-  message_type *saved_active_message = active_message_;
+
+  // restore the active message even when an exception is thrown
+  struct active_message_saver {
+    message_type *&active_;
+    message_type *saved_;
+    ~active_message_saver() { active_ = saved_; }
+  } saver{active_message_, active_message_};
 
   debug_ << "decoding dynamic templateRef ...\n";
 
@@ -238,22 +245,23 @@ inline void fast_decoder_impl::visit(const nested_message_mref &mref, int) {
     debug_ << "   decoded template id -> " << template_id << "\n";
 
     // find the message with corresponding template id
-    active_message_ = repo_.find(template_id);
-    if (active_message_ == nullptr) {
+    message_type *message = repo_.find(template_id);
+    if (message == nullptr) {
       using namespace coder;
 
       BOOST_THROW_EXCEPTION(fast_dynamic_error("D9")
                             << template_id_info(template_id));
     }
-    mref.set_target_instruction(active_message_->instruction(), false);
+    active_message_ = message;
   }
 
+  mref.set_target_instruction(active_message_->instruction(), true);
+
   for (auto &&field : mref.target()) {
     apply_mutator(*this, field);
   }
 
   restore_pmap(state);
-  active_message_ = saved_active_message;
 }
 
 message_type *fast_decoder_impl::decode_segment(fast_istreambuf &sb) {
diff --git a/src/mfast/coder/decoder_v2/fast_decoder_core.h b/src/mfast/coder/decoder_v2/fast_decoder_core.h
index e6dbcef..48f8eda 100644
--- a/src/mfast/coder/decoder_v2/fast_decoder_core.h
+++ b/src/mfast/coder/decoder_v2/fast_decoder_core.h
@@ -623,29 +623,33 @@ inline fast_decoder_core<NumTokens>::fast_decoder_core(allocator *alloc)
 template <unsigned NumTokens>
 void fast_decoder_core<NumTokens>::visit(const nested_message_mref &mref) {
   decoder_pmap_saver<true_type> saver(this);
-  info_entry *saved_active_info = this->active_message_info_;
+
+  // restore the active message even when an exception is thrown
+  struct active_message_saver {
+    info_entry *&active_;
+    info_entry *saved_;
+    ~active_message_saver() { active_ = saved_; }
+  } info_saver{active_message_info_, active_message_info_};
 
   if (this->current_->is_next_bit_set()) {
     uint32_t template_id;
 
     strm_.decode(template_id, false_type());
     // find the message with corresponding template id
-    active_message_info_ = repo_.find(template_id);
+    info_entry *info = repo_.find(template_id);
 
-    if (active_message_info_ == nullptr) {
+    if (info == nullptr) {
       BOOST_THROW_EXCEPTION(
           fast_dynamic_error("D9")
           << template_id_info(template_id)
           << referenced_by_info(this->active_message().name()));
     }
+    active_message_info_ = info;
   }
 
-  mref.set_target_instruction(this->active_message().instruction(),
-                              false_type());
+  mref.set_target_instruction(this->active_message().instruction(), true);
   message_decode_function_t decode = active_message_info_->decode_fun_;
   (this->*decode)(mref.target());
-
-  this->active_message_info_ = saved_active_info;
 }
 
 template <unsigned NumTokens>
diff --git a/src/mfast/instructions/templateref_instruction.cpp b/src/mfast/instructions/templateref_instruction.cpp
index ca9e19e..ab02720 100644
--- a/src/mfast/instructions/templateref_instruction.cpp
+++ b/src/mfast/instructions/templateref_instruction.cpp
@@ -20,19 +20,25 @@ void templateref_instruction::construct_value(value_storage &storage,
 void templateref_instruction::construct_value(
     value_storage &storage, allocator *alloc,
     const template_instruction *from_inst, bool construct_subfields) const {
-  storage.of_templateref.of_instruction.instruction_ = from_inst;
+  // the storage must be in a consistent state if the allocator throws
+  storage.of_templateref.of_instruction.instruction_ = nullptr;
+  storage.of_templateref.content_ = nullptr;
   if (from_inst) {
-    storage.of_templateref.content_ = static_cast<value_storage *>(
+    value_storage *content = static_cast<value_storage *>(
         alloc->allocate(from_inst->group_content_byte_count()));
 
-    if (construct_subfields)
-      from_inst->construct_group_subfields(storage.of_templateref.content_,
-                                           alloc);
-    else
-       memset(reinterpret_cast<char*>(storage.of_templateref.content_), 0,
-              from_inst->group_content_byte_count());
-  } else {
-    storage.of_templateref.content_ = nullptr;
+    if (construct_subfields) {
+      try {
+        from_inst->construct_group_subfields(content, alloc);
+      } catch (...) {
+        alloc->deallocate(content, from_inst->group_content_byte_count());
+        throw;
+      }
+    } else
+      memset(reinterpret_cast<char *>(content), 0,
+             from_inst->group_content_byte_count());
+    storage.of_templateref.content_ = content;
+    storage.of_templateref.of_instruction.instruction_ = from_inst;
   }
 }
 
@@ -54,15 +60,21 @@ void templateref_instruction::copy_construct_value(const value_storage &src,
                                                    value_storage &dest,
                                                    allocator *alloc,
                                                    value_storage *) const {
-  dest.of_templateref.of_instruction.instruction_ =
+  const template_instruction *inst =
       src.of_templateref.of_instruction.instruction_;
-  if (src.of_templateref.of_instruction.instruction_) {
-    dest.of_templateref.content_ = static_cast<value_storage *>(
-        alloc->allocate(dest.of_templateref.of_instruction.instruction_
-                            ->group_content_byte_count()));
-
-    dest.of_templateref.of_instruction.instruction_->copy_group_subfields(
-        src.of_templateref.content_, dest.of_templateref.content_, alloc);
+  dest.of_templateref.of_instruction.instruction_ = nullptr;
+  dest.of_templateref.content_ = nullptr;
+  if (inst) {
+    value_storage *content = static_cast<value_storage *>(
+        alloc->allocate(inst->group_content_byte_count()));
+    try {
+      inst->copy_group_subfields(src.of_templateref.content_, content, alloc);
+    } catch (...) {
+      alloc->deallocate(content, inst->group_content_byte_count());
+      throw;
+    }
+    dest.of_templateref.content_ = content;
+    dest.of_templateref.of_instruction.instruction_ = inst;
   }
 }
 
-- 
2.43.0


From cbb58faa91582efc0200d2d65699aaf2c7f26b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:08 +0000
Subject: [PATCH 17/70] fix: constructing or copying message storage is not
 exception safe

---
 src/mfast/instructions/group_instruction.cpp  | 56 +++++++++++++++----
 .../instructions/sequence_instruction.cpp     | 53 ++++++++++++------
 2 files changed, 83 insertions(+), 26 deletions(-)

diff --git a/src/mfast/instructions/group_instruction.cpp b/src/mfast/instructions/group_instruction.cpp
index 3f26ea1..d435a85 100644
--- a/src/mfast/instructions/group_instruction.cpp
+++ b/src/mfast/instructions/group_instruction.cpp
@@ -9,8 +9,17 @@
 namespace mfast {
 void group_field_instruction::construct_group_subfields(
     value_storage *subfields, allocator *alloc) const {
-  for (uint32_t i = 0; i < this->subinstructions_.size(); ++i) {
-    this->subinstructions_[i]->construct_value(subfields[i], alloc);
+  uint32_t i = 0;
+  try {
+    for (; i < this->subinstructions_.size(); ++i) {
+      this->subinstructions_[i]->construct_value(subfields[i], alloc);
+    }
+  } catch (...) {
+    while (i > 0) {
+      --i;
+      this->subinstructions_[i]->destruct_value(subfields[i], alloc);
+    }
+    throw;
   }
 }
 
@@ -43,9 +52,18 @@ int group_field_instruction::find_subinstruction_index_by_name(
 void group_field_instruction::copy_group_subfields(
     const value_storage *src_subfields, value_storage *dest_subfields,
     allocator *alloc) const {
-  for (uint32_t i = 0; i < this->subinstructions_.size(); ++i) {
-    this->subinstructions_[i]->copy_construct_value(src_subfields[i],
-                                                    dest_subfields[i], alloc);
+  uint32_t i = 0;
+  try {
+    for (; i < this->subinstructions_.size(); ++i) {
+      this->subinstructions_[i]->copy_construct_value(
+          src_subfields[i], dest_subfields[i], alloc);
+    }
+  } catch (...) {
+    while (i > 0) {
+      --i;
+      this->subinstructions_[i]->destruct_value(dest_subfields[i], alloc);
+    }
+    throw;
   }
 }
 
@@ -58,7 +76,12 @@ void group_field_instruction::construct_value(value_storage &storage,
   storage.of_group.content_ =
       static_cast<value_storage *>(alloc->allocate(group_content_byte_count()));
   storage.of_group.own_content_ = true;
-  construct_group_subfields(storage.of_group.content_, alloc);
+  try {
+    construct_group_subfields(storage.of_group.content_, alloc);
+  } catch (...) {
+    alloc->deallocate(storage.of_group.content_, group_content_byte_count());
+    throw;
+  }
 }
 
 void group_field_instruction::destruct_value(value_storage &storage,
@@ -83,9 +106,16 @@ void group_field_instruction::construct_value(value_storage &storage,
                      : static_cast<value_storage *>(
                            alloc->allocate(this->group_content_byte_count()));
 
-  if (construct_subfields)
-    construct_group_subfields(storage.of_group.content_, alloc);
-  else
+  if (construct_subfields) {
+    try {
+      construct_group_subfields(storage.of_group.content_, alloc);
+    } catch (...) {
+      if (fields_storage == nullptr)
+        alloc->deallocate(storage.of_group.content_,
+                          group_content_byte_count());
+      throw;
+    }
+  } else
     memset(reinterpret_cast<char*>(storage.of_group.content_), 0, this->group_content_byte_count());
 }
 
@@ -100,7 +130,13 @@ void group_field_instruction::copy_construct_value(
                           : static_cast<value_storage *>(
                                 alloc->allocate(group_content_byte_count()));
 
-  copy_group_subfields(src.of_group.content_, dest.of_group.content_, alloc);
+  try {
+    copy_group_subfields(src.of_group.content_, dest.of_group.content_, alloc);
+  } catch (...) {
+    if (dest_fields_storage == nullptr)
+      alloc->deallocate(dest.of_group.content_, group_content_byte_count());
+    throw;
+  }
 }
 
 group_field_instruction *
diff --git a/src/mfast/instructions/sequence_instruction.cpp b/src/mfast/instructions/sequence_instruction.cpp
index afda1d3..aee8cb8 100644
--- a/src/mfast/instructions/sequence_instruction.cpp
+++ b/src/mfast/instructions/sequence_instruction.cpp
@@ -72,8 +72,14 @@ void sequence_field_instruction::construct_sequence_elements(
     allocator *alloc) const {
   value_storage *elements =
       static_cast<value_storage *>(storage.of_array.content_);
-  for (std::size_t i = start; i < start + length; ++i) {
-    construct_group_subfields(&elements[i * subinstructions_.size()], alloc);
+  std::size_t i = start;
+  try {
+    for (; i < start + length; ++i) {
+      construct_group_subfields(&elements[i * subinstructions_.size()], alloc);
+    }
+  } catch (...) {
+    destruct_sequence_elements(storage, start, i - start, alloc);
+    throw;
   }
 }
 
@@ -99,8 +105,15 @@ void sequence_field_instruction::construct_value(value_storage &storage,
     storage.of_array.content_ = nullptr;
     storage.of_array.capacity_in_bytes_ =
         alloc->reallocate(storage.of_array.content_, 0, reserve_size);
-    construct_sequence_elements(
-        storage, 0, storage.of_array.capacity_in_bytes_ / element_size, alloc);
+    try {
+      construct_sequence_elements(
+          storage, 0, storage.of_array.capacity_in_bytes_ / element_size,
+          alloc);
+    } catch (...) {
+      alloc->deallocate(storage.of_array.content_,
+                        storage.of_array.capacity_in_bytes_);
+      throw;
+    }
   } else {
     storage.of_array.content_ = nullptr;
     storage.of_array.capacity_in_bytes_ = 0;
@@ -148,18 +161,26 @@ void sequence_field_instruction::copy_construct_value(const value_storage &src,
     value_storage *dest_elements =
         static_cast<value_storage *>(dest.of_array.content_);
 
-    for (std::size_t i = 0; i < size; ++i) {
-      std::size_t j = i * this->subinstructions_.size();
-      copy_group_subfields(&src_elements[j], &dest_elements[j], alloc);
-    }
-    // we must default construct the extra elements we reserved; otherwise we
-    // may deallocate garbage pointers during destruction.
-    std::size_t unused_count =
-        dest.of_array.capacity_in_bytes_ / element_size - size;
-    if (unused_count > 0) {
-      // std::memset( static_cast<char*>(dest.of_array.content_) + reserve_size,
-      // 0, unused);
-      construct_sequence_elements(dest, size, unused_count, alloc);
+    std::size_t i = 0;
+    try {
+      for (; i < size; ++i) {
+        std::size_t j = i * this->subinstructions_.size();
+        copy_group_subfields(&src_elements[j], &dest_elements[j], alloc);
+      }
+      // we must default construct the extra elements we reserved; otherwise we
+      // may deallocate garbage pointers during destruction.
+      std::size_t unused_count =
+          dest.of_array.capacity_in_bytes_ / element_size - size;
+      if (unused_count > 0) {
+        // std::memset( static_cast<char*>(dest.of_array.content_) +
+        // reserve_size, 0, unused);
+        construct_sequence_elements(dest, size, unused_count, alloc);
+      }
+    } catch (...) {
+      destruct_sequence_elements(dest, 0, i, alloc);
+      alloc->deallocate(dest.of_array.content_,
+                        dest.of_array.capacity_in_bytes_);
+      throw;
     }
   } else {
     dest.of_array.content_ = nullptr;
-- 
2.43.0


From 3b961021363ab182befef903208a14009f525688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:53 +0000
Subject: [PATCH 18/70] fix: int vectors and vectors referring to memory of
 others are corrupted when modified

---
 src/mfast/vector_ref.h | 61 +++++++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 27 deletions(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index d5e0461..bccf396 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -4,6 +4,7 @@
 // This file is part of mFAST.
 // See the file license.txt for licensing information.
 #pragma once
+#include <algorithm>
 #include <cassert>
 #include <iterator>
 #include <cstring>
@@ -217,19 +218,15 @@ public:
 
   void resize(size_t n, char c = 0) const {
     assert(n < static_cast<size_t>((std::numeric_limits<int32_t>::max)()));
-    size_t len = n + 1;
-    if (len > this->capacity()) {
-      reserve(n);
-      std::make_signed<std::size_t>::type bytes_to_set = n - this->size();
-      if (bytes_to_set > 0)
-        std::memset(end(), c, static_cast<size_t>(bytes_to_set));
-    }
+    reserve(n);
+    if (n > this->size())
+      std::fill(end(), data() + n, static_cast<value_type>(c));
     this->storage()->array_length(static_cast<uint32_t>(n));
   }
 
   void reserve(size_t n) const;
 
-  void push_back(char c) const { insert(end(), c); }
+  void push_back(value_type c) const { insert(end(), c); }
   void pop_back() const {
     if (this->size())
       this->storage()->of_array.len_ -= 1;
@@ -296,7 +293,8 @@ protected:
 
   friend class mfast::detail::codec_helper;
   void copy_from(const value_storage &v) const {
-    const char *ptr = static_cast<const char *>(v.of_array.content_);
+    const value_type *ptr =
+        static_cast<const value_type *>(v.of_array.content_);
     this->assign(ptr, ptr + v.array_length());
   }
 
@@ -376,7 +374,7 @@ public:
     return int_vector_cref<T>(this->storage(), this->instruction());
   }
 
-  void swap(const int_vector_cref<T> &other) const { base_type::swap(other); }
+  void swap(const int_vector_mref<T> &other) const { base_type::swap(other); }
 };
 
 typedef vector_mref<unsigned char> byte_vector_mref;
@@ -421,10 +419,10 @@ private:
 };
 
 typedef vector_type<byte_vector_cref> byte_vector_type;
-typedef int_vector_mref<int32_vector_cref> int32_vector_type;
-typedef int_vector_mref<uint32_vector_cref> uint32_vector_type;
-typedef int_vector_mref<int64_vector_cref> int64_vector_type;
-typedef int_vector_mref<uint64_vector_cref> uint64_vector_type;
+typedef vector_type<int32_vector_cref> int32_vector_type;
+typedef vector_type<uint32_vector_cref> uint32_vector_type;
+typedef vector_type<int64_vector_cref> int64_vector_type;
+typedef vector_type<uint64_vector_cref> uint64_vector_type;
 
 template <typename T>
 void vector_mref_base<T>::reserve(
@@ -433,14 +431,22 @@ void vector_mref_base<T>::reserve(
     return;
   std::size_t reserve_size = (n + 1) * sizeof(value_type);
 
+  // the storage is left alone when the reallocation fails
   if (capacity() > 0) {
-    this->storage()->of_array.capacity_in_bytes_ = this->alloc_->reallocate(
-        this->storage()->of_array.content_, capacity(), reserve_size);
+    void *content = this->storage()->of_array.content_;
+    std::size_t new_capacity = this->alloc_->reallocate(
+        content, this->storage()->of_array.capacity_in_bytes_, reserve_size);
+    this->storage()->of_array.content_ = content;
+    this->storage()->of_array.capacity_in_bytes_ =
+        static_cast<uint32_t>(new_capacity);
   } else {
     void *old_addr = this->storage()->of_array.content_;
-    this->storage()->of_array.content_ = nullptr;
-    this->storage()->of_array.capacity_in_bytes_ = this->alloc_->reallocate(
-        this->storage()->of_array.content_, 0, reserve_size);
+    void *content = nullptr;
+    std::size_t new_capacity =
+        this->alloc_->reallocate(content, 0, reserve_size);
+    this->storage()->of_array.content_ = content;
+    this->storage()->of_array.capacity_in_bytes_ =
+        static_cast<uint32_t>(new_capacity);
     // Copy the old content to the new buffer.
     // In the case when the this->capacity == 0 && this->size() > 0,
     // reserve() could be invoked with n < this->size(). Thus, we can
@@ -449,7 +455,7 @@ void vector_mref_base<T>::reserve(
       if (n > 0)
         std::memcpy(this->storage()->of_array.content_, old_addr,
                     std::min<size_t>(this->size(), n) * sizeof(value_type));
-    } else {
+    } else if (this->storage()->of_array.len_ == 0) {
       // if this->storage()->of_array.len_ was 0, it needs to be set to 1 to
       // indicate
       // buffer has been allocated yet no data be written to it yet.
@@ -465,17 +471,15 @@ vector_mref_base<T>::shift(typename vector_mref_base<T>::iterator position,
   assert(position >= begin() && position <= end());
   std::size_t offset = position - begin();
 
-  if (capacity() < this->size() + n)
-    reserve(this->size() + n);
+  reserve(this->size() + n);
 
   iterator src = begin() + offset;
 
   if (offset < this->size()) {
-    std::memmove(src + (n * sizeof(value_type)), src,
-                 (this->size() + 1 - offset) * sizeof(value_type));
+    std::memmove(src + n, src, (this->size() - offset) * sizeof(value_type));
   }
 
-  this->storage()->of_array.len_ += static_cast<uint32_t>(n);
+  this->storage()->array_length(static_cast<uint32_t>(this->size() + n));
   return src;
 }
 
@@ -486,16 +490,19 @@ void vector_mref_base<T>::replace(size_t pos, size_t count,
     // all the elements starting from pos are to removed from the vector
     this->resize(pos + count2);
   } else {
+    // make sure that the elements are not in a memory owned by others
+    this->reserve(this->size());
     std::ptrdiff_t diff = count2 - count;
     if (diff > 0) {
       // some elements has to be shift back
       this->shift(data() + pos, diff);
     } else {
       std::memmove(data() + pos + count2, data() + pos + count,
-                   -diff * sizeof(value_type));
+                   (this->size() - pos - count) * sizeof(value_type));
       this->resize(this->size() + diff);
     }
   }
-  std::memcpy(data() + pos, addr, count2 * sizeof(value_type));
+  if (count2 > 0)
+    std::memcpy(data() + pos, addr, count2 * sizeof(value_type));
 }
 }
-- 
2.43.0


From b9192aec7773fcb588f3ed8038ae0073607e37d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:53 +0000
Subject: [PATCH 19/70] fix: operator> of strings and crend() of sequences

---
 src/mfast/sequence_ref.h | 4 ++--
 src/mfast/string_ref.h   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mfast/sequence_ref.h b/src/mfast/sequence_ref.h
index 384abac..5fba914 100644
--- a/src/mfast/sequence_ref.h
+++ b/src/mfast/sequence_ref.h
@@ -250,7 +250,7 @@ public:
     return boost::make_reverse_iterator(this->begin());
   }
   const_reverse_iterator crbegin() const { return this->rbegin(); }
-  const_reverse_iterator crend() const { return this->rbegin(); }
+  const_reverse_iterator crend() const { return this->rend(); }
   /**
    * @returns true if the sequence contains only one sub-field and the field is
    *unnamed.
@@ -456,6 +456,6 @@ make_sequence_mref<ElementType, SequenceTrait, SequenceInstructionType>::as(
   this->instruction()->copy_construct_value(*src.storage_, tmp_storage,
                                             this->alloc_);
   std::swap(tmp_storage, const_cast<value_storage &>(*this->storage_));
-  this->instruction()->destruct_value(tmp_storage);
+  this->instruction()->destruct_value(tmp_storage, this->alloc_);
 }
 }
diff --git a/src/mfast/string_ref.h b/src/mfast/string_ref.h
index 87d01fa..ec203dd 100644
--- a/src/mfast/string_ref.h
+++ b/src/mfast/string_ref.h
@@ -48,7 +48,7 @@ public:
   }
   template <typename OtherIntruction>
   bool operator>(const string_cref_base<OtherIntruction> &other) const {
-    return compare(other) >= 0;
+    return compare(other) > 0;
   }
 
   bool operator>=(const boost::string_ref &other) const {
-- 
2.43.0


From b0361dc1e40d8db0804fb5ea9ad1f4562ca03753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:53 +0000
Subject: [PATCH 20/70] fix: contents are lost or freed twice when a
 reallocation fails

---
 src/mfast/malloc_allocator.cpp |  9 ++++-----
 src/mfast/sequence_ref.cpp     | 23 +++++++++++++++++++----
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/mfast/malloc_allocator.cpp b/src/mfast/malloc_allocator.cpp
index 60c09ef..ba193d1 100644
--- a/src/mfast/malloc_allocator.cpp
+++ b/src/mfast/malloc_allocator.cpp
@@ -26,12 +26,11 @@ std::size_t malloc_allocator::reallocate(void *&pointer,
                                          std::size_t new_size) {
   // make the new_size at least 64 bytes
   new_size = std::max<std::size_t>(2 * new_size, 64) & (~63);
-  void *old_ptr = pointer;
-  pointer = std::realloc(pointer, new_size);
-  if (pointer == nullptr) {
-    std::free(old_ptr);
+  // the old block is still in use when there isn't enough memory
+  void *new_ptr = std::realloc(pointer, new_size);
+  if (new_ptr == nullptr)
     throw std::bad_alloc();
-  }
+  pointer = new_ptr;
   return new_size;
 }
 
diff --git a/src/mfast/sequence_ref.cpp b/src/mfast/sequence_ref.cpp
index 7551c3a..1de24c0 100644
--- a/src/mfast/sequence_ref.cpp
+++ b/src/mfast/sequence_ref.cpp
@@ -5,6 +5,7 @@
 // See the file license.txt for licensing information.
 #include "mfast/sequence_ref.h"
 #include "mfast/allocator.h"
+#include <cstring>
 
 namespace mfast {
 namespace detail {
@@ -21,22 +22,36 @@ void sequence_mref_helper::reserve(
 
   if (reserve_size > storage->of_array.capacity_in_bytes_) {
 
+    // Construct the new elements in a block of their own, the sequence remains
+    // unchanged if there isn't enough memory for them.
+    value_storage tmp;
     std::size_t new_capacity =
-        alloc->reallocate(storage->of_array.content_,
-                          storage->of_array.capacity_in_bytes_, reserve_size);
+        alloc->reallocate(tmp.of_array.content_, 0, reserve_size);
 
     std::size_t old_num_elements =
         storage->of_array.capacity_in_bytes_ / element_size;
     std::size_t new_num_elements = new_capacity / element_size;
 
-    instruction->construct_sequence_elements(
-        *storage, old_num_elements, new_num_elements - old_num_elements, alloc);
+    try {
+      instruction->construct_sequence_elements(
+          tmp, old_num_elements, new_num_elements - old_num_elements, alloc);
+    } catch (...) {
+      alloc->deallocate(tmp.of_array.content_, new_capacity);
+      throw;
+    }
     // In the above 3rd parameter, it is incorrect to use
     // (new_capacity-storage->of_array.capacity_in_bytes_)/element_size.
     // It would cause differet value when either
     // storage->of_array.capacity_in_bytes_
     // or new_capacity is not the multiple of element_size.
 
+    if (storage->of_array.capacity_in_bytes_) {
+      std::memcpy(tmp.of_array.content_, storage->of_array.content_,
+                  old_num_elements * element_size);
+      alloc->deallocate(storage->of_array.content_,
+                        storage->of_array.capacity_in_bytes_);
+    }
+    storage->of_array.content_ = tmp.of_array.content_;
     storage->of_array.capacity_in_bytes_ = static_cast<uint32_t>(new_capacity);
   }
 }
-- 
2.43.0


From e870693cef6f2a61b003fc996debd829fecb6025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:53 +0000
Subject: [PATCH 21/70] fix: arena_allocator breaks when it is out of memory
 and grows with each reset

---
 src/mfast/arena_allocator.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/mfast/arena_allocator.cpp b/src/mfast/arena_allocator.cpp
index 6dac8f6..f729eb1 100644
--- a/src/mfast/arena_allocator.cpp
+++ b/src/mfast/arena_allocator.cpp
@@ -5,6 +5,7 @@
 // See the file license.txt for licensing information.
 #include "arena_allocator.h"
 #include "allocator_utils.h"
+#include <algorithm>
 #include <cstring>
 #include <cstdlib>
 #include <new>
@@ -48,6 +49,16 @@ void *arena_allocator::allocate(std::size_t n) {
       tmp->next_ = current_list_head_;
       current_list_head_ = static_cast<memory_chunk *>(tmp);
     } else {
+      // allocate new memory chunk from the system
+      std::size_t new_chunk_size = align(
+          n + sizeof(memory_chunk) -
+              sizeof(uint64_t), // minimum size for the new block
+          default_chunk_size);  // make the size multiple of default_chunk_size
+
+      void *block = malloc(new_chunk_size);
+      if (block == nullptr)
+        throw std::bad_alloc();
+
       if (current_list_head_->size() >= 64) {
         // if current block is have plenty of free space, move it to the
         // free_list
@@ -58,15 +69,6 @@ void *arena_allocator::allocate(std::size_t n) {
         current_list_head_ =
             static_cast<memory_chunk *>(tmp_current_list_head_head);
       }
-      // allocate new memory chunk from the system
-      std::size_t new_chunk_size = align(
-          n + sizeof(memory_chunk) -
-              sizeof(uint64_t), // minimum size for the new block
-          default_chunk_size);  // make the size multiple of default_chunk_size
-
-      void *block = malloc(new_chunk_size);
-      if (block == nullptr)
-        throw std::bad_alloc();
       current_list_head_ =
           new (block) memory_chunk(new_chunk_size, current_list_head_);
     }
@@ -85,7 +87,8 @@ std::size_t arena_allocator::reallocate(void *&pointer, std::size_t old_size,
   new_size = align(static_cast<std::size_t>(new_size) * 2, 64);
   void *old_pointer = pointer;
   pointer = this->allocate(new_size);
-  std::memcpy(pointer, old_pointer, old_size);
+  if (old_size > 0)
+    std::memcpy(pointer, old_pointer, std::min(old_size, new_size));
   return new_size;
 }
 
@@ -96,6 +99,10 @@ bool arena_allocator::reset() {
     tmp = static_cast<memory_chunk *>(tmp->next_);
     tmp->start_ = reinterpret_cast<char *>(tmp->user_memory);
   }
+  // the chunks in the free_list may be partially used as well
+  for (memory_chunk_base *chunk = free_list_head_; chunk != nullptr;
+       chunk = chunk->next_)
+    chunk->start_ = reinterpret_cast<char *>(chunk->user_memory);
   // append the free_list_head_ to the tail of current_list
   tmp->next_ = free_list_head_;
   // make current_list_head_->next_ to become the new head of free_list
-- 
2.43.0


From 7be6d91c4c18bf0de18fbfa6c232ba65be7220e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:22 +0000
Subject: [PATCH 22/70] fix: string dictionary entries of the decoders alias
 the contents of messages

---
 src/mfast/coder/common/codec_helper.h         | 32 +++++++++++++++++++
 src/mfast/coder/common/dictionary_builder.cpp | 17 ++++++++--
 src/mfast/coder/common/dictionary_builder.h   |  2 ++
 src/mfast/coder/decoder/fast_decoder.cpp      |  3 +-
 .../coder/decoder_v2/fast_decoder_core.h      |  2 +-
 5 files changed, 51 insertions(+), 5 deletions(-)

diff --git a/src/mfast/coder/common/codec_helper.h b/src/mfast/coder/common/codec_helper.h
index baca4c2..f2288cb 100644
--- a/src/mfast/coder/common/codec_helper.h
+++ b/src/mfast/coder/common/codec_helper.h
@@ -5,6 +5,7 @@
 // See the file license.txt for licensing information.
 #pragma once
 
+#include "../../malloc_allocator.h"
 #include "../../string_ref.h"
 #include "../../exceptions.h"
 
@@ -21,6 +22,20 @@ public:
     mref.save_to(previous_value_of(mref));
   }
 
+  // The dictionary keeps its own copy of a string, the message it came from may
+  // be changed or destructed before the previous value is used again.
+  void save_previous_value(const ascii_string_mref &mref) const {
+    save_previous_string(mref);
+  }
+
+  void save_previous_value(const unicode_string_mref &mref) const {
+    save_previous_string(mref);
+  }
+
+  void save_previous_value(const byte_vector_mref &mref) const {
+    save_previous_string(mref);
+  }
+
   template <typename T> void load_previous_value(const T &mref) const {
     mref.copy_from(previous_value_of(mref));
   }
@@ -133,6 +148,23 @@ public:
       copy_string_raw(mref, delta_start_index, delta_str, delta_len);
     }
   }
+
+private:
+  template <typename T> void save_previous_string(const T &mref) const {
+    value_storage &prev = previous_value_of(mref);
+    if (prev.of_array.capacity_in_bytes_ == 0) {
+      // not an entry of a dictionary
+      mref.save_to(prev);
+      return;
+    }
+    if (mref.present()) {
+      T prev_mref(malloc_allocator::instance(), &prev, mref.instruction());
+      prev_mref.assign(mref.begin(), mref.end());
+    } else {
+      prev.present(false);
+    }
+    prev.defined(true);
+  }
 };
 }
 }
diff --git a/src/mfast/coder/common/dictionary_builder.cpp b/src/mfast/coder/common/dictionary_builder.cpp
index 862560c..b3ecdcc 100644
--- a/src/mfast/coder/common/dictionary_builder.cpp
+++ b/src/mfast/coder/common/dictionary_builder.cpp
@@ -241,6 +241,17 @@ value_storage *dictionary_builder::get_dictionary_storage(
   return candidate_storage;
 }
 
+void dictionary_builder::add_vector_entry(value_storage *entry) {
+  mfast::allocator *alloc = repo_base_.dictionary_alloc_;
+  repo_base_.add_vector_entry(entry);
+
+  // let the entry own the memory for its previous value
+  if (alloc && entry->of_array.capacity_in_bytes_ == 0) {
+    entry->of_array.capacity_in_bytes_ = static_cast<uint32_t>(
+        alloc->reallocate(entry->of_array.content_, 0, 1));
+  }
+}
+
 void dictionary_builder::visit(const int32_field_instruction *src_inst,
                                void *dest_inst) {
   int32_field_instruction *&dest =
@@ -289,7 +300,7 @@ void dictionary_builder::visit(const ascii_field_instruction *src_inst,
   dest->prev_value_ = get_dictionary_storage(
       dest->name(), dest->ns(), dest->op_context_, field_type_ascii_string,
       &dest->prev_storage_, dest);
-  repo_base_.add_vector_entry(dest->prev_value_);
+  this->add_vector_entry(dest->prev_value_);
 }
 
 void dictionary_builder::visit(const unicode_field_instruction *src_inst,
@@ -301,7 +312,7 @@ void dictionary_builder::visit(const unicode_field_instruction *src_inst,
       dest->name(), dest->ns(), dest->op_context_, field_type_unicode_string,
       &dest->prev_storage_, dest);
 
-  repo_base_.add_vector_entry(dest->prev_value_);
+  this->add_vector_entry(dest->prev_value_);
 }
 
 void dictionary_builder::visit(const decimal_field_instruction *src_inst,
@@ -342,7 +353,7 @@ void dictionary_builder::visit(const byte_vector_field_instruction *src_inst,
   dest->prev_value_ = get_dictionary_storage(
       dest->name(), dest->ns(), dest->op_context(), field_type_byte_vector,
       &dest->prev_storage_, dest);
-  repo_base_.add_vector_entry(dest->prev_value_);
+  this->add_vector_entry(dest->prev_value_);
 }
 
 void dictionary_builder::visit(const int32_vector_field_instruction *src_inst,
diff --git a/src/mfast/coder/common/dictionary_builder.h b/src/mfast/coder/common/dictionary_builder.h
index d9ef80a..aaeade5 100644
--- a/src/mfast/coder/common/dictionary_builder.h
+++ b/src/mfast/coder/common/dictionary_builder.h
@@ -134,6 +134,8 @@ private:
                                         value_storage *candidate_storage,
                                         field_instruction *instruction);
 
+  void add_vector_entry(value_storage *entry);
+
   template_instruction *find_template(uint32_t template_id);
 
   struct indexer_value_type {
diff --git a/src/mfast/coder/decoder/fast_decoder.cpp b/src/mfast/coder/decoder/fast_decoder.cpp
index af76597..a8c3f0e 100644
--- a/src/mfast/coder/decoder/fast_decoder.cpp
+++ b/src/mfast/coder/decoder/fast_decoder.cpp
@@ -94,7 +94,8 @@ struct fast_decoder_impl {
 };
 
 inline fast_decoder_impl::fast_decoder_impl(mfast::allocator *alloc)
-    : repo_(info_entry_converter(alloc)), message_alloc_(alloc), strm_(nullptr),
+    : repo_(info_entry_converter(alloc), malloc_allocator::instance()),
+      message_alloc_(alloc), strm_(nullptr),
       active_message_(nullptr), force_reset_(false), current_(nullptr),
       warning_log_(nullptr) {}
 
diff --git a/src/mfast/coder/decoder_v2/fast_decoder_core.h b/src/mfast/coder/decoder_v2/fast_decoder_core.h
index 48f8eda..330437c 100644
--- a/src/mfast/coder/decoder_v2/fast_decoder_core.h
+++ b/src/mfast/coder/decoder_v2/fast_decoder_core.h
@@ -617,7 +617,7 @@ void fast_decoder_base::decode_field(const T &ext_ref, tail_operator_tag,
 template <unsigned NumTokens>
 inline fast_decoder_core<NumTokens>::fast_decoder_core(allocator *alloc)
     : fast_decoder_base(alloc),
-      repo_(info_entry_converter(alloc), NumTokens == 0 ? nullptr : alloc),
+      repo_(info_entry_converter(alloc), malloc_allocator::instance()),
       active_message_info_(nullptr) {}
 
 template <unsigned NumTokens>
-- 
2.43.0


From b464b1e3c0a8e62aa962aa143804b7e2421e79d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:53 +0000
Subject: [PATCH 23/70] fix: decoders do not reset the dictionary for nested
 messages of templates with reset

---
 src/mfast/coder/decoder/fast_decoder.cpp       | 3 +++
 src/mfast/coder/decoder_v2/fast_decoder_core.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/mfast/coder/decoder/fast_decoder.cpp b/src/mfast/coder/decoder/fast_decoder.cpp
index a8c3f0e..3203e9d 100644
--- a/src/mfast/coder/decoder/fast_decoder.cpp
+++ b/src/mfast/coder/decoder/fast_decoder.cpp
@@ -256,6 +256,9 @@ inline void fast_decoder_impl::visit(const nested_message_mref &mref, int) {
     active_message_ = message;
   }
 
+  if (active_message_->instruction()->has_reset_attribute())
+    repo_.reset_dictionary();
+
   mref.set_target_instruction(active_message_->instruction(), true);
 
   for (auto &&field : mref.target()) {
diff --git a/src/mfast/coder/decoder_v2/fast_decoder_core.h b/src/mfast/coder/decoder_v2/fast_decoder_core.h
index 330437c..c5268c7 100644
--- a/src/mfast/coder/decoder_v2/fast_decoder_core.h
+++ b/src/mfast/coder/decoder_v2/fast_decoder_core.h
@@ -647,6 +647,9 @@ void fast_decoder_core<NumTokens>::visit(const nested_message_mref &mref) {
     active_message_info_ = info;
   }
 
+  if (this->active_message().instruction()->has_reset_attribute())
+    repo_.reset_dictionary();
+
   mref.set_target_instruction(this->active_message().instruction(), true);
   message_decode_function_t decode = active_message_info_->decode_fun_;
   (this->*decode)(mref.target());
-- 
2.43.0


From fbbb89f0d70bbd3cc2ddd5cf20f8c29fb1d7528d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:53 +0000
Subject: [PATCH 24/70] fix: decoders do not accept a reset message after an
 unknown template id

---
 src/mfast/coder/decoder/fast_decoder.cpp       | 4 ++++
 src/mfast/coder/decoder_v2/fast_decoder_core.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/mfast/coder/decoder/fast_decoder.cpp b/src/mfast/coder/decoder/fast_decoder.cpp
index 3203e9d..8ff6ae7 100644
--- a/src/mfast/coder/decoder/fast_decoder.cpp
+++ b/src/mfast/coder/decoder/fast_decoder.cpp
@@ -281,6 +281,10 @@ message_type *fast_decoder_impl::decode_segment(fast_istreambuf &sb) {
 
   uint32_t template_id = 0;
 
+  // an unknown template id may have been received before the reset
+  if (force_reset_ && repo_.unique_entry())
+    active_message_ = repo_.unique_entry();
+
   if (pmap.is_next_bit_set()) {
 
     strm_.decode(template_id, false);
diff --git a/src/mfast/coder/decoder_v2/fast_decoder_core.h b/src/mfast/coder/decoder_v2/fast_decoder_core.h
index c5268c7..a8d0648 100644
--- a/src/mfast/coder/decoder_v2/fast_decoder_core.h
+++ b/src/mfast/coder/decoder_v2/fast_decoder_core.h
@@ -666,6 +666,10 @@ fast_decoder_core<NumTokens>::decode_segment(fast_istreambuf &sb) {
 
   uint32_t template_id = 0;
 
+  // an unknown template id may have been received before the reset
+  if (force_reset_ && repo_.unique_entry())
+    active_message_info_ = repo_.unique_entry();
+
   if (pmap.is_next_bit_set()) {
     strm_.decode(template_id, false_type());
 
-- 
2.43.0


From 1980ae25b0d6293658d39f023e3e62391a8e8ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:00 +0000
Subject: [PATCH 25/70] fix: the sign of decimals between -1 and 0 is lost when
 they are read from text

---
 src/mfast/value_storage.cpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/mfast/value_storage.cpp b/src/mfast/value_storage.cpp
index a13f00f..368dcef 100644
--- a/src/mfast/value_storage.cpp
+++ b/src/mfast/value_storage.cpp
@@ -14,7 +14,9 @@ std::istream &operator>>(std::istream &strm, decimal_value_storage &storage) {
 
   int64_t mantissa;
   int16_t exponent = 0;
-  if (!(strm >> std::skipws >> mantissa)) {
+  // the sign cannot be told from the mantissa for a value like -0.5
+  const bool negative = (strm >> std::ws).peek() == '-';
+  if (!(strm >> mantissa)) {
     return strm;
   }
   // BOOST_THROW_EXCEPTION(json_decode_error(strm, "Expect decimal"));
@@ -23,22 +25,11 @@ std::istream &operator>>(std::istream &strm, decimal_value_storage &storage) {
 
   int c = sbuf->sbumpc();
   if (c == '.') {
-    bool negative = false;
-
-    if (mantissa < 0) {
-      negative = true;
-      mantissa = -mantissa;
-    }
-
     while ((c = sbuf->sbumpc()) != EOF && isdigit(c)) {
       mantissa *= 10;
-      mantissa += c - '0';
+      mantissa += negative ? '0' - c : c - '0';
       exponent -= 1;
     }
-
-    if (negative) {
-      mantissa = -mantissa;
-    }
   }
 
   if (c == 'e' || c == 'E') {
-- 
2.43.0


From 28e98a16b305957977a00961a75fff47aeaabbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:08 +0000
Subject: [PATCH 26/70] fix: the initial value of a decimal field is ignored
 unless it has individual operators

---
 src/mfast/xml_parser/field_op.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/mfast/xml_parser/field_op.cpp b/src/mfast/xml_parser/field_op.cpp
index 87335f1..b1e2e3b 100644
--- a/src/mfast/xml_parser/field_op.cpp
+++ b/src/mfast/xml_parser/field_op.cpp
@@ -5,6 +5,7 @@
 // See the file license.txt for licensing information.
 #include <cstddef>
 #include <set>
+#include <sstream>
 #include <boost/assign.hpp>
 #include "field_op.h"
 #include "../exceptions.h"
@@ -69,9 +70,17 @@ field_op::field_op(const decimal_field_instruction *inst,
           get_optional_attr(*field_op_element, "value", nullptr);
 
       if (init_value_str) {
-        if (strcmp(element->Name(), "exponent") != 0)
-          initial_value_.set(boost::lexical_cast<int64_t>(init_value_str));
-        else {
+        if (strcmp(element->Name(), "exponent") != 0) {
+          decimal_value_storage value;
+          std::istringstream strm(init_value_str);
+          if (!(strm >> value) || strm.peek() != EOF) {
+            BOOST_THROW_EXCEPTION(
+                fast_static_error("S3")
+                << reason_info(std::string("Invalid decimal initial value: ") +
+                               init_value_str));
+          }
+          initial_value_ = value.storage_;
+        } else {
           short exp = 128;
           try {
             exp = boost::lexical_cast<short>(init_value_str);
-- 
2.43.0


From 06795334cef8ad0ec26af5da00121e778209b6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:37 +0000
Subject: [PATCH 27/70] fix: the exponent is lost when the mantissa of a
 decimal is not in the stream

---
 src/mfast/int_ref.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mfast/int_ref.h b/src/mfast/int_ref.h
index b3ed8e5..7ce4d63 100644
--- a/src/mfast/int_ref.h
+++ b/src/mfast/int_ref.h
@@ -98,7 +98,7 @@ public:
   }
 
   void to_initial_value() const {
-    *this->storage() = this->instruction()->initial_value();
+    copy_from(this->instruction()->initial_value());
   }
   T value() const { return this->storage()->template get<T>(); }
 
@@ -117,7 +117,12 @@ protected:
 
   friend class mfast::detail::codec_helper;
 
-  void copy_from(value_storage v) const { *this->storage() = v; }
+  void copy_from(value_storage v) const {
+    // the storage is shared with the exponent when this refers to the mantissa
+    // of a decimal field, only the parts which belong to an integer are copied.
+    this->storage()->of_uint64.content_ = v.of_uint64.content_;
+    this->storage()->of_uint64.present_ = v.of_uint64.present_;
+  }
 };
 
 typedef int_mref<int32_t> int32_mref;
-- 
2.43.0


From 5e563b4e6285a757692c63d180c5a5208de8ff3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:42 +0000
Subject: [PATCH 28/70] fix: the v2 decoder looks for the initial value flag in
 the operator id

---
 src/mfast/ext_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/ext_ref.h b/src/mfast/ext_ref.h
index 2213a65..609bea8 100644
--- a/src/mfast/ext_ref.h
+++ b/src/mfast/ext_ref.h
@@ -58,7 +58,7 @@ struct ext_ref_properties : presence_checker<Properties> {
                                  (OperatorType::value != operator_constant &&
                                   IsOptional)> is_nullable_type;
   typedef std::integral_constant<
-      bool, ((OperatorType::value & field_has_initial_value) > 0 &&
+      bool, ((Properties::value & field_has_initial_value) == 0 &&
              !IsOptional)> mandatory_without_initial_value_type;
   typedef std::integral_constant<bool,
                                  (OperatorType::value > operator_delta ||
-- 
2.43.0


From 83da304af7023d543b39503442881e84be7acd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:25 +0000
Subject: [PATCH 29/70] fix: sequences of static template references share the
 dictionary of all codecs

---
 src/mfast/coder/common/dictionary_builder.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mfast/coder/common/dictionary_builder.cpp b/src/mfast/coder/common/dictionary_builder.cpp
index b3ecdcc..9466fb2 100644
--- a/src/mfast/coder/common/dictionary_builder.cpp
+++ b/src/mfast/coder/common/dictionary_builder.cpp
@@ -151,6 +151,15 @@ void dictionary_builder::visit(const sequence_field_instruction *src_inst,
 
   this->build_group(src_inst, src_inst, dest);
 
+  if (src_inst->element_instruction()) {
+    // the elements must refer to the previous values of this dictionary rather
+    // than those in the instruction which is shared by all the codecs.
+    group_field_instruction *element =
+        src_inst->element_instruction()->clone(alloc_);
+    element->set_subinstructions(dest->subinstructions());
+    dest->element_instruction(element);
+  }
+
   if (src_inst->length_instruction()) {
     visit(src_inst->length_instruction(), &dest->sequence_length_instruction_);
   } else {
-- 
2.43.0


From f9819b4b5a12b744bf9588ce4f406fb2baf560eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:17 +0000
Subject: [PATCH 30/70] fix: the mantissa of decimals has an initial value of
 zero which is not in the template

---
 src/mfast/xml_parser/field_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 4964aa3..724de79 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -192,7 +192,7 @@ void field_builder::visit(const decimal_field_instruction *inst, void *) {
 
     if (base_mantissa_instruction == nullptr) {
       static const mantissa_field_instruction mantissa_prototype(
-          operator_none, nullptr, int_value_storage<int64_t>(0));
+          operator_none, nullptr, int_value_storage<int64_t>());
       base_mantissa_instruction = &mantissa_prototype;
     }
 
-- 
2.43.0


From d5568fb215d6b23712cc3fb08a8f67427ac133b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:07 +0000
Subject: [PATCH 31/70] fix: the presence map has no room for the mantissa of
 decimals with individual operators

---
 src/mfast/coder/encoder/encoder_presence_map.h | 12 ++++++++++++
 src/mfast/instructions/decimal_instruction.h   |  8 +++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_presence_map.h b/src/mfast/coder/encoder/encoder_presence_map.h
index ba8dfc5..a5c63e1 100644
--- a/src/mfast/coder/encoder/encoder_presence_map.h
+++ b/src/mfast/coder/encoder/encoder_presence_map.h
@@ -57,6 +57,18 @@ inline void encoder_presence_map::reset() {
 }
 
 inline void encoder_presence_map::commit() {
+  // less bits than expected are used when a decimal without its mantissa is
+  // encoded; the reserved bytes have to be filled anyway.
+  while (maxbytes_ > sizeof(std::size_t)) {
+    stream_->write_bytes_at(&value_, sizeof(std::size_t), offset_, false,
+                            begin_);
+    offset_ += sizeof(std::size_t);
+    maxbytes_ -= sizeof(std::size_t);
+    reset();
+  }
+  if (nbytes_ + 1 < maxbytes_)
+    nbytes_ = maxbytes_ - 1;
+
 #ifdef BOOST_BIG_ENDIAN
   const std::size_t stop_bit_mask = (init_mask >> (nbytes_ * 8));
 #else
diff --git a/src/mfast/instructions/decimal_instruction.h b/src/mfast/instructions/decimal_instruction.h
index fbeeb10..5286fa8 100644
--- a/src/mfast/instructions/decimal_instruction.h
+++ b/src/mfast/instructions/decimal_instruction.h
@@ -82,10 +82,12 @@ public:
     mantissa_instruction_ = v;
     this->initial_value_.of_decimal.mantissa_ =
         mantissa_instruction_->initial_value().get<int64_t>();
+  }
 
-    if (has_pmap_bit_ == 0) {
-      has_pmap_bit_ = (mantissa_instruction_->pmap_size() > 0);
-    }
+  virtual std::size_t pmap_size() const override {
+    // both the exponent and the mantissa may occupy a bit
+    return field_instruction::pmap_size() +
+           (mantissa_instruction_ ? mantissa_instruction_->pmap_size() : 0);
   }
 
   static const decimal_field_instruction *default_instruction();
-- 
2.43.0


From cb41b84156db390b626fc63c29ae547b8c9c27f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:53 +0000
Subject: [PATCH 32/70] fix: absent decimals with a default exponent are
 encoded as present

---
 src/mfast/coder/encoder/fast_encoder.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/mfast/coder/encoder/fast_encoder.cpp b/src/mfast/coder/encoder/fast_encoder.cpp
index 155dd54..286c0cf 100644
--- a/src/mfast/coder/encoder/fast_encoder.cpp
+++ b/src/mfast/coder/encoder/fast_encoder.cpp
@@ -173,9 +173,7 @@ static bool omitted_by_default(const field_cref &field) {
   const field_instruction *inst = field.instruction();
   if (field.present() || inst->field_operator() != operator_default)
     return false;
-  return inst->field_type() != field_type_decimal ||
-         static_cast<const decimal_field_instruction *>(inst)
-                 ->mantissa_instruction() == nullptr;
+  return inst->field_type() != field_type_exponent;
 }
 
 void fast_encoder_impl::visit(message_cref cref, bool force_reset) {
-- 
2.43.0


From 5ea4bfbaff852f320039c8752f537863af6fd822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:50 +0000
Subject: [PATCH 33/70] fix: elements of a sequence cannot be assigned through
 references

---
 src/mfast/aggregate_ref.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/mfast/aggregate_ref.h b/src/mfast/aggregate_ref.h
index 9d03c43..9b96bcd 100644
--- a/src/mfast/aggregate_ref.h
+++ b/src/mfast/aggregate_ref.h
@@ -355,17 +355,13 @@ void make_aggregate_mref<ConstRef>::as(const ConstRef &other) const {
   value_storage *new_content = reinterpret_cast<value_storage *>(buf + sz);
   // the first chuck for storing the original content
   std::memcpy(orig_content, this->storage_array_, sz);
-  value_storage tmp_storage;
 
-  // the second chunk for construct the new aggregate value
-
-  value_storage other_storage;
-  other_storage.of_group.own_content_ = false;
-  other_storage.of_group.content_ = const_cast<value_storage *>(
-      aggregate_cref_core_access::storage_of(other));
-
-  this->instruction()->copy_construct_value(other_storage, tmp_storage,
-                                            this->alloc_, new_content);
+  // the second chunk for construct the new aggregate value. The instruction may
+  // be the one of a sequence when this is one of its elements, the subfields
+  // are what has to be copied in any case.
+  this->instruction()->copy_group_subfields(
+      aggregate_cref_core_access::storage_of(other), new_content,
+      this->alloc_);
 
   // copy the newly construct aggregate value to the old memory chunk
   std::memcpy(const_cast<value_storage *>(this->storage_array_), new_content,
-- 
2.43.0


From cc73714f473c750e97568b1b0b49f08b1a9b1782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:50 +0000
Subject: [PATCH 34/70] fix: copying strings and vectors reads beyond the end
 of the source

---
 src/mfast/instructions/string_instructions.cpp     | 6 ++++--
 src/mfast/instructions/vector_instruction_base.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mfast/instructions/string_instructions.cpp b/src/mfast/instructions/string_instructions.cpp
index 334dfda..1204bcd 100644
--- a/src/mfast/instructions/string_instructions.cpp
+++ b/src/mfast/instructions/string_instructions.cpp
@@ -49,8 +49,10 @@ void ascii_field_instruction::copy_construct_value(const value_storage &src,
     dest.of_array.content_ = nullptr;
     dest.of_array.capacity_in_bytes_ =
         alloc->reallocate(dest.of_array.content_, 0, len * element_size_);
-    std::memcpy(dest.of_array.content_, src.of_array.content_,
-                len * element_size_);
+    // of_array.len_ is one more than the number of elements
+    if (len > 1)
+      std::memcpy(dest.of_array.content_, src.of_array.content_,
+                  (len - 1) * element_size_);
   } else {
     dest.of_array.content_ = src.of_array.content_;
     dest.of_array.capacity_in_bytes_ = 0;
diff --git a/src/mfast/instructions/vector_instruction_base.cpp b/src/mfast/instructions/vector_instruction_base.cpp
index 9c752ca..aa9d0bd 100644
--- a/src/mfast/instructions/vector_instruction_base.cpp
+++ b/src/mfast/instructions/vector_instruction_base.cpp
@@ -30,8 +30,10 @@ void vector_field_instruction_base::copy_construct_value(
     dest.of_array.content_ = nullptr;
     dest.of_array.capacity_in_bytes_ = alloc->reallocate(
         dest.of_array.content_, 0, src.of_array.len_ * element_size_);
-    std::memcpy(dest.of_array.content_, src.of_array.content_,
-                src.of_array.len_ * element_size_);
+    // of_array.len_ is one more than the number of elements
+    if (src.of_array.len_ > 1)
+      std::memcpy(dest.of_array.content_, src.of_array.content_,
+                  (src.of_array.len_ - 1) * element_size_);
   } else {
     dest.of_array.capacity_in_bytes_ = 0;
     dest.of_array.content_ = nullptr;
-- 
2.43.0


From 73d1c63eb20e5d68c6fe5a3f738e63e4d4984b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:50 +0000
Subject: [PATCH 35/70] fix: clear() leaves mandatory sequences as they are

---
 src/mfast/instructions/sequence_instruction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mfast/instructions/sequence_instruction.cpp b/src/mfast/instructions/sequence_instruction.cpp
index aee8cb8..d3e827d 100644
--- a/src/mfast/instructions/sequence_instruction.cpp
+++ b/src/mfast/instructions/sequence_instruction.cpp
@@ -22,6 +22,7 @@ sequence_field_instruction::sequence_field_instruction(
       sequence_length_instruction_(sequence_length_instruction),
       element_instruction_(element_instruction) {
   field_type_ = field_type_sequence;
+  is_array_ = true;
   has_pmap_bit_ = sequence_length_instruction
                       ? sequence_length_instruction->pmap_size()
                       : 0;
-- 
2.43.0


From 9983dfe5971ff0d23300854bc0b7335549c76eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:53 +0000
Subject: [PATCH 36/70] fix: copying a message leaks its storage when the
 allocator throws

---
 src/mfast/instructions/template_instruction.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/mfast/instructions/template_instruction.cpp b/src/mfast/instructions/template_instruction.cpp
index acfc75f..c71a20d 100644
--- a/src/mfast/instructions/template_instruction.cpp
+++ b/src/mfast/instructions/template_instruction.cpp
@@ -10,15 +10,20 @@ namespace mfast {
 void template_instruction::copy_construct_value(
     const value_storage &src, value_storage &dest, allocator *alloc,
     value_storage *dest_fields_storage) const {
-  if (dest_fields_storage) {
-    dest.of_group.own_content_ = false;
-  } else {
-    dest.of_group.own_content_ = true;
+  const bool own_content = dest_fields_storage == nullptr;
+  if (own_content) {
     dest_fields_storage = static_cast<value_storage *>(
         alloc->allocate(this->group_content_byte_count()));
   }
+  dest.of_group.own_content_ = own_content;
   dest.of_group.content_ = dest_fields_storage;
-  copy_group_subfields(src.of_group.content_, dest_fields_storage, alloc);
+  try {
+    copy_group_subfields(src.of_group.content_, dest_fields_storage, alloc);
+  } catch (...) {
+    if (own_content)
+      alloc->deallocate(dest_fields_storage, group_content_byte_count());
+    throw;
+  }
 }
 
 template_instruction *
-- 
2.43.0


From eb15acc98f1a95a5e43d081c5d0b7fa11e74f57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:18 +0000
Subject: [PATCH 37/70] fix: arena never reuses chunks behind a free chunk that
 is too small

---
 src/mfast/arena_allocator.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/mfast/arena_allocator.cpp b/src/mfast/arena_allocator.cpp
index f729eb1..1b5ab3c 100644
--- a/src/mfast/arena_allocator.cpp
+++ b/src/mfast/arena_allocator.cpp
@@ -40,14 +40,23 @@ void *arena_allocator::allocate(std::size_t n) {
   if (current_list_head_->size() < n) {
     // current block does not have enough memory
 
-    if (free_list_head_ && free_list_head_->size() >= n) {
-      // The head of free_list is big enough,
-      // move the head of free_listto become the head of current_list
-      memory_chunk_base *tmp = free_list_head_;
-      free_list_head_ = static_cast<memory_chunk *>(free_list_head_->next_);
+    // look for the first chunk of free_list which is big enough
+    memory_chunk_base *prev = nullptr;
+    memory_chunk_base *chunk = free_list_head_;
+    while (chunk && static_cast<memory_chunk *>(chunk)->size() < n) {
+      prev = chunk;
+      chunk = chunk->next_;
+    }
+
+    if (chunk) {
+      // move it to become the head of current_list
+      if (prev)
+        prev->next_ = chunk->next_;
+      else
+        free_list_head_ = static_cast<memory_chunk *>(chunk->next_);
 
-      tmp->next_ = current_list_head_;
-      current_list_head_ = static_cast<memory_chunk *>(tmp);
+      chunk->next_ = current_list_head_;
+      current_list_head_ = static_cast<memory_chunk *>(chunk);
     } else {
       // allocate new memory chunk from the system
       std::size_t new_chunk_size = align(
-- 
2.43.0


From 74e069ea8bb5b184c87af22b27feb15aef137f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:32 +0000
Subject: [PATCH 38/70] fix: JSON encoder drops leading zeros of the bytes of a
 byte vector

---
 src/mfast/json/json_encode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfast/json/json_encode.cpp b/src/mfast/json/json_encode.cpp
index b563ee3..6575ba8 100644
--- a/src/mfast/json/json_encode.cpp
+++ b/src/mfast/json/json_encode.cpp
@@ -101,13 +101,13 @@ public:
       // json doesn't have byte vector, treat it as hex string now
       strm_ << separator_ << "\"";
       boost::io::ios_flags_saver ifs(strm_);
-      strm_ << std::hex << std::setfill('0') << std::setw(2);
+      strm_ << std::hex << std::setfill('0');
 
       for (std::size_t i = 0; i < ref.size(); ++i) {
         // if the size is 16, we treat it as a UUID
         if (ref.size() == 16 && (i == 4 || i == 6 || i == 8 || i == 10))
           strm_ << '-';
-        strm_ << (0xFF & (int)ref[i]);
+        strm_ << std::setw(2) << (0xFF & (int)ref[i]);
       }
       strm_ << "\"" << std::setfill(' ');
     }
-- 
2.43.0


From 8f7237725fc47c0d2b511ef54a31b4eaa764eb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:13 +0000
Subject: [PATCH 39/70] fix: JSON encoder ends strings at NUL characters and
 reads past strings without one

---
 src/mfast/json/json_encode.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/mfast/json/json_encode.cpp b/src/mfast/json/json_encode.cpp
index 6575ba8..2e21e4b 100644
--- a/src/mfast/json/json_encode.cpp
+++ b/src/mfast/json/json_encode.cpp
@@ -9,6 +9,7 @@
 #include "../nested_message_ref.h"
 #include <boost/io/ios_state.hpp>
 #include <cstdio>
+#include <cstring>
 #ifdef _MSC_VER // someday someone at microsoft will read the C++11 standard.
 #define snprintf _snprintf
 #else // _MSCVER
@@ -25,11 +26,19 @@ struct quoted_string {
   const char *str_;
 };
 
-std::ostream &operator<<(std::ostream &os, quoted_string str) {
+struct quoted_chars {
+  quoted_chars(const char *str, std::size_t size) : str_(str), size_(size) {}
+
+  const char *str_;
+  std::size_t size_;
+};
+
+std::ostream &operator<<(std::ostream &os, quoted_chars str) {
   os.put('"');
   const char *ptr = str.str_;
-  char c;
-  while ((c = *ptr++) != '\0') {
+  const char *last = ptr + str.size_;
+  while (ptr != last) {
+    const char c = *ptr++;
     // According to ECMA-404, the control charanter (U+0000 to U+001F) must be
     // escaped
     if ((c & 0xE0) == 0) {
@@ -54,6 +63,10 @@ std::ostream &operator<<(std::ostream &os, quoted_string str) {
   return os;
 }
 
+std::ostream &operator<<(std::ostream &os, quoted_string str) {
+  return os << quoted_chars(str.str_, std::strlen(str.str_));
+}
+
 class json_visitor {
 protected:
   std::ostream &strm_;
@@ -86,7 +99,7 @@ public:
   }
 
   template <typename Char> void visit(const mfast::string_cref<Char> &ref) {
-    strm_ << separator_ << quoted_string(ref.c_str());
+    strm_ << separator_ << quoted_chars(ref.data(), ref.size());
   }
 
   void visit(const mfast::byte_vector_cref &ref) {
-- 
2.43.0


From 5f6770f0936c73e891d9be56c9de523c8790d11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:13 +0000
Subject: [PATCH 40/70] fix: JSON decoder takes an empty array for an absent
 sequence

---
 src/mfast/json/json_decode.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 07a1db8..67062e0 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -511,7 +511,8 @@ bool decode_visitor::visit_impl(const mfast::aggregate_mref &ref) {
 }
 
 void decode_visitor::visit(const mfast::sequence_mref &ref, int) {
-  ref.clear();
+  // an empty array is not the same as an absent one
+  ref.resize(0);
   if (!parse_array_preamble(strm_))
     return;
 
-- 
2.43.0


From 0acd11f79a38c09f0331ad5e9c1c352860352517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:27 +0000
Subject: [PATCH 41/70] fix: reading decimals fails or overflows for many
 digits

---
 src/mfast/value_storage.cpp | 66 +++++++++++++++++++++++++++++--------
 1 file changed, 52 insertions(+), 14 deletions(-)

diff --git a/src/mfast/value_storage.cpp b/src/mfast/value_storage.cpp
index 368dcef..65a5fd3 100644
--- a/src/mfast/value_storage.cpp
+++ b/src/mfast/value_storage.cpp
@@ -8,38 +8,76 @@
 #include <algorithm>
 #include <cstdio>
 #include <iterator>
+#include <limits>
 
 namespace mfast {
 std::istream &operator>>(std::istream &strm, decimal_value_storage &storage) {
 
-  int64_t mantissa;
-  int16_t exponent = 0;
-  // the sign cannot be told from the mantissa for a value like -0.5
-  const bool negative = (strm >> std::ws).peek() == '-';
-  if (!(strm >> mantissa)) {
+  int64_t mantissa = 0;
+  int exponent = 0;
+
+  const std::istream::sentry ok(strm); // skips white space
+  if (!ok)
     return strm;
-  }
-  // BOOST_THROW_EXCEPTION(json_decode_error(strm, "Expect decimal"));
 
   std::streambuf *sbuf = strm.rdbuf();
+  int c = sbuf->sgetc();
+
+  const bool negative = (c == '-');
+  if (c == '-' || c == '+')
+    c = sbuf->snextc();
+
+  bool has_digits = false;
+  bool overflow = false;
+  bool in_fraction = false;
+
+  for (;; c = sbuf->snextc()) {
+    if (c == '.' && has_digits && !in_fraction) {
+      in_fraction = true;
+      continue;
+    }
+    if (c == EOF || !isdigit(c))
+      break;
+    has_digits = true;
 
-  int c = sbuf->sbumpc();
-  if (c == '.') {
-    while ((c = sbuf->sbumpc()) != EOF && isdigit(c)) {
+    const int digit = c - '0';
+    const bool fits =
+        negative
+            ? mantissa >= ((std::numeric_limits<int64_t>::min)() + digit) / 10
+            : mantissa <= ((std::numeric_limits<int64_t>::max)() - digit) / 10;
+    if (fits) {
       mantissa *= 10;
-      mantissa += negative ? '0' - c : c - '0';
-      exponent -= 1;
+      mantissa += negative ? -digit : digit;
+      if (in_fraction)
+        --exponent;
+    } else if (digit != 0) {
+      overflow = true;
+    } else if (!in_fraction) {
+      ++exponent;
     }
   }
 
+  if (!has_digits || overflow) {
+    strm.setstate(c == EOF ? std::ios::failbit | std::ios::eofbit
+                           : std::ios::failbit);
+    return strm;
+  }
+
   if (c == 'e' || c == 'E') {
+    sbuf->sbumpc();
     int16_t exp;
     if (!(strm >> exp)) {
       return strm;
     }
     exponent += exp;
-  } else if (c != EOF) {
-    strm.putback(c);
+  } else if (c == EOF) {
+    strm.setstate(std::ios::eofbit);
+  }
+
+  if (exponent < (std::numeric_limits<int16_t>::min)() ||
+      exponent > (std::numeric_limits<int16_t>::max)()) {
+    strm.setstate(std::ios::failbit);
+    return strm;
   }
   storage.mantissa(mantissa);
   storage.exponent(exponent);
-- 
2.43.0


From 429516cb10f56404c5076eda463aa02d0c073965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:27 +0000
Subject: [PATCH 42/70] fix: zero decimals with positive exponents are written
 with superfluous zeros

---
 src/mfast/value_storage.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfast/value_storage.cpp b/src/mfast/value_storage.cpp
index 65a5fd3..979a0e0 100644
--- a/src/mfast/value_storage.cpp
+++ b/src/mfast/value_storage.cpp
@@ -115,7 +115,8 @@ std::ostream &operator<<(std::ostream &os,
 
   if (exponent >= 0) {
     os << mantissa;
-    std::fill_n(std::ostream_iterator<char>(os), exponent, '0');
+    if (mantissa != 0)
+      std::fill_n(std::ostream_iterator<char>(os), exponent, '0');
   } else if (exponent < 0) {
     char buf[128];
 
-- 
2.43.0


From ecb18c5a4ea109979d7e181a4e801562cbe8b51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:27 +0000
Subject: [PATCH 43/70] fix: dynamic template references get their field index
 for a tag

---
 src/mfast/xml_parser/field_builder.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 724de79..eb374fd 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -361,8 +361,7 @@ void field_builder::visit(const templateref_instruction *, void *) {
     }
   } else {
 
-    instruction = new (alloc()) templateref_instruction(
-        static_cast<uint16_t>(parent_->num_instructions()));
+    instruction = new (alloc()) templateref_instruction;
 
     parent_->add_instruction(instruction);
   }
-- 
2.43.0


From 2e5c4d6c862c31d220afeea816f122c111305410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:27 +0000
Subject: [PATCH 44/70] fix: JSON objects in byte vectors are written without
 separators and error checks

---
 src/mfast/json/json_encode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfast/json/json_encode.cpp b/src/mfast/json/json_encode.cpp
index 2e21e4b..16e73c7 100644
--- a/src/mfast/json/json_encode.cpp
+++ b/src/mfast/json/json_encode.cpp
@@ -108,8 +108,8 @@ public:
       // json encoded object already, just write it as it is without any
       // processing.
 
-      strm_.rdbuf()->sputn(reinterpret_cast<const char *>(ref.data()),
-                           ref.size());
+      strm_ << separator_;
+      strm_.write(reinterpret_cast<const char *>(ref.data()), ref.size());
     } else {
       // json doesn't have byte vector, treat it as hex string now
       strm_ << separator_ << "\"";
-- 
2.43.0


From 8d12cee961819ab20a0b6b2e550394fd7572e80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:27 +0000
Subject: [PATCH 45/70] fix: JSON objects are appended to previous contents of
 byte vectors

---
 src/mfast/json/json_decode.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 67062e0..5d97791 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -378,6 +378,8 @@ struct decode_visitor {
       char c = 0;
       strm_ >> std::skipws >> c;
       if (strm_.good() && c == '{') {
+        // the element of a sequence may have previous contents
+        ref.resize(0);
         ref.push_back(c);
         if (skip_matching(strm_, c, &ref)) {
           return;
-- 
2.43.0


From 305b14fc43a7f126a1d7b7b3e6bc30e4a5b36d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:27 +0000
Subject: [PATCH 46/70] fix: JSON decoder keeps only the last element of an
 integer vector

---
 src/mfast/json/json_decode.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 5d97791..29ea941 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -399,8 +399,10 @@ struct decode_visitor {
     }
   }
 
-  template <typename IntType> void visit(int_vector_mref<IntType> &ref) {
-    ref.clear();
+  template <typename IntType>
+  void visit(const int_vector_mref<IntType> &ref) {
+    // an empty array is not the same as an absent one
+    ref.resize(0);
     if (!parse_array_preamble(strm_))
       return;
 
@@ -410,7 +412,7 @@ struct decode_visitor {
     do {
       ref.resize(i + 1);
 
-      strm_ >> ref[i] >> std::skipws >> c;
+      strm_ >> ref[i++] >> std::skipws >> c;
 
       if (!strm_.good())
         BOOST_THROW_EXCEPTION(json_decode_error(strm_, "Expect integer"));
-- 
2.43.0


From a693874aadb6ac4e4af32fc3e75bd9223e1c272a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:42 +0000
Subject: [PATCH 47/70] fix: a view's reference to a group follows that of one
 of its members wrongly

The path of a reference shared its last index, which selects the field
itself, with the previous reference.  Also do not touch the references of
a view whose first field has none.
---
 src/mfast/xml_parser/view_info_builder.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mfast/xml_parser/view_info_builder.cpp b/src/mfast/xml_parser/view_info_builder.cpp
index ee59cce..fd91d31 100644
--- a/src/mfast/xml_parser/view_info_builder.cpp
+++ b/src/mfast/xml_parser/view_info_builder.cpp
@@ -233,7 +233,8 @@ void view_info_builder::build_field_view(const tinyxml2::XMLElement &element,
                                    static_cast<unsigned>(field_indeces.size()));
     result.prop += 1;
     if (fields.size()) {
-      result.prop += std::mismatch(nest_indices, nest_indices + i,
+      // the last index selects the field itself, it is not part of the path
+      result.prop += std::mismatch(nest_indices, nest_indices + i - 1,
                                    fields.back().nest_indices)
                          .first -
                      nest_indices;
@@ -272,7 +273,8 @@ view_info_builder::build(const tinyxml2::XMLElement &element,
         grandchild = grandchild->NextSiblingElement();
       }
 
-      fields.back().prop &= ~field_view_info::CONTINUE_BIT;
+      if (fields.size())
+        fields.back().prop &= ~field_view_info::CONTINUE_BIT;
     }
     child = child->NextSiblingElement();
   }
-- 
2.43.0


From 8bdf11d2a90f94682a4eb5c9282cf93748ee6dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:42 +0000
Subject: [PATCH 48/70] fix: views ignore alternatives of the first field, mix
 up paths after skipped alternatives and show sequences for missing elements

---
 src/mfast/view_iterator.cpp | 16 +++++++++++++---
 src/mfast/view_iterator.h   |  3 ++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/mfast/view_iterator.cpp b/src/mfast/view_iterator.cpp
index af51e2d..762b258 100644
--- a/src/mfast/view_iterator.cpp
+++ b/src/mfast/view_iterator.cpp
@@ -49,6 +49,8 @@ bool view_iterator_helper::access_field(view_iterator *itr) {
             itr->leaf_.refers_to(*itr->non_leaves_.back());
           }
         } else {
+          // there is no such element
+          itr->leaf_.refers_to(field_cref());
           finished = true;
         }
       } else {
@@ -59,16 +61,24 @@ bool view_iterator_helper::access_field(view_iterator *itr) {
   return itr->leaf_.present();
 }
 
-void view_iterator_helper::increment(view_iterator *itr) {
-  ++itr->view_info_;
+void view_iterator_helper::access_alternatives(view_iterator *itr) {
   if (itr->view_info_->prop == 0)
     return;
 
   while (!access_field(itr) && itr->view_info_->cont())
     ++itr->view_info_;
 
-  while (itr->view_info_->cont())
+  while (itr->view_info_->cont()) {
     ++itr->view_info_;
+    // what follows shares its prefix with the alternative that is skipped
+    if (itr->view_info_->prefix_diff() < itr->non_leaves_.size())
+      itr->non_leaves_.resize(itr->view_info_->prefix_diff());
+  }
+}
+
+void view_iterator_helper::increment(view_iterator *itr) {
+  ++itr->view_info_;
+  access_alternatives(itr);
 }
 
 } /* mfast */
diff --git a/src/mfast/view_iterator.h b/src/mfast/view_iterator.h
index a12b18e..f372c84 100644
--- a/src/mfast/view_iterator.h
+++ b/src/mfast/view_iterator.h
@@ -40,6 +40,7 @@ class view_iterator;
 class MFAST_EXPORT view_iterator_helper {
 public:
   static bool access_field(view_iterator *itr);
+  static void access_alternatives(view_iterator *itr);
   static void increment(view_iterator *itr);
 };
 
@@ -54,7 +55,7 @@ public:
       : view_info_(view_info) {
     non_leaves_.reserve(max_depth);
     non_leaves_.push_back(ref.begin());
-    access_field();
+    view_iterator_helper::access_alternatives(this);
   }
 
   view_iterator(const field_view_info *view_info) : view_info_(view_info) {}
-- 
2.43.0


From c1891c3252f537ccdb7947a5fc1dd2bd5ff7b511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:59 +0000
Subject: [PATCH 49/70] fix: empty groups and sequences crash the template
 loader, comments change referenced types

---
 src/mfast/xml_parser/field_builder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index eb374fd..26d475c 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -383,8 +383,8 @@ instructions_view_t field_builder::build_subfields() {
 
 const group_field_instruction *field_builder::get_sole_templateref() {
   const XMLElement *child = content_element_->FirstChildElement();
-  if (strcmp(child->Name(), "templateRef") == 0 &&
-      child->NextSibling() == nullptr) {
+  if (child && strcmp(child->Name(), "templateRef") == 0 &&
+      child->NextSiblingElement() == nullptr) {
     const char *target_name = child->Attribute("name", nullptr);
     if (target_name) {
       const char *target_ns =
-- 
2.43.0


From eb8347eb528e73de11bbd6a714a508bc2f9cce69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:48 +0000
Subject: [PATCH 50/70] fix: constructing or copying a sequence whose elements
 have no fields divides by zero

---
 src/mfast/instructions/sequence_instruction.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mfast/instructions/sequence_instruction.cpp b/src/mfast/instructions/sequence_instruction.cpp
index d3e827d..216c14d 100644
--- a/src/mfast/instructions/sequence_instruction.cpp
+++ b/src/mfast/instructions/sequence_instruction.cpp
@@ -100,8 +100,9 @@ void sequence_field_instruction::construct_value(value_storage &storage,
   uint32_t initial_length =
       sequence_length_instruction_->initial_value().get<uint32_t>();
   storage.of_array.len_ = optional() ? 0 : initial_length + 1;
-  if (sequence_length_instruction_ && initial_length > 0) {
-    std::size_t element_size = this->group_content_byte_count();
+  // elements without any field take no memory at all
+  std::size_t element_size = this->group_content_byte_count();
+  if (sequence_length_instruction_ && initial_length > 0 && element_size > 0) {
     std::size_t reserve_size = initial_length * element_size;
     storage.of_array.content_ = nullptr;
     storage.of_array.capacity_in_bytes_ =
@@ -149,8 +150,8 @@ void sequence_field_instruction::copy_construct_value(const value_storage &src,
 
   dest.of_array.len_ = src.of_array.len_;
 
-  if (size) {
-    std::size_t element_size = this->group_content_byte_count();
+  std::size_t element_size = this->group_content_byte_count();
+  if (size && element_size > 0) {
     std::size_t reserve_size = size * element_size;
 
     dest.of_array.content_ = nullptr;
-- 
2.43.0


From 7843283f8d4352189b7114795f86aba1425b4202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:48 +0000
Subject: [PATCH 51/70] fix: numeric initial value of a boolean crashes the
 template loader

---
 src/mfast/xml_parser/field_builder.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 26d475c..d8b430e 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -531,12 +531,11 @@ bool parse_enum_value(const char **enum_element_names,
   for (uint64_t i = 0; i < num_elements; ++i) {
     // FAST 1.2 does not cleary specify what a default enum value refers to,
     // search for a match in either name or value/deduce_value
+    const uint64_t element_value =
+        enum_element_values ? enum_element_values[i] : i;
     if (std::strcmp(enum_element_names[i], value_name) == 0 ||
-       (value_int.has_value() && enum_element_values[i] == *value_int)) {
-          if (enum_element_values)
-            result = enum_element_values[i];
-          else
-            result = i;
+       (value_int.has_value() && element_value == *value_int)) {
+          result = element_value;
           return true;
     }
   }
-- 
2.43.0


From f2075282198a0ab44ee5e9a46d2c8272c9003eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:48 +0000
Subject: [PATCH 52/70] fix: documents without a templates element leave
 descriptions uninitialised

---
 src/mfast/instructions/templates_description.h | 4 +++-
 src/mfast/xml_parser/templates_builder.cpp     | 6 ++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mfast/instructions/templates_description.h b/src/mfast/instructions/templates_description.h
index 0689423..290270e 100644
--- a/src/mfast/instructions/templates_description.h
+++ b/src/mfast/instructions/templates_description.h
@@ -42,7 +42,9 @@ public:
   uint32_t size() const { return instructions_count_; }
 
 protected:
-  templates_description() {}
+  templates_description()
+      : ns_(""), template_ns_(""), dictionary_(""), instructions_(nullptr),
+        instructions_count_(0) {}
   friend class coder::templates_builder;
   const char *ns_;
   const char *template_ns_;
diff --git a/src/mfast/xml_parser/templates_builder.cpp b/src/mfast/xml_parser/templates_builder.cpp
index 88341c6..6e70a0d 100644
--- a/src/mfast/xml_parser/templates_builder.cpp
+++ b/src/mfast/xml_parser/templates_builder.cpp
@@ -5,6 +5,7 @@
 // See the file license.txt for licensing information.
 #include "templates_builder.h"
 #include "field_builder.h"
+#include "field_op.h"
 #include "../boolean_ref.h"
 #include "view_info_builder.h"
 #include "../exceptions.h"
@@ -205,6 +206,11 @@ dynamic_templates_description::dynamic_templates_description(
     const char *xml_content, const char *cpp_ns, template_registry *registry) {
   XMLDocument document;
   if (document.Parse(xml_content) == 0) {
+    const XMLElement *root = document.RootElement();
+    if (root == nullptr || std::strcmp(root->Name(), "templates") != 0)
+      BOOST_THROW_EXCEPTION(
+          fast_static_error("S1")
+          << xml_parser::reason_info("The root element must be 'templates'"));
     xml_parser::templates_builder builder(this, cpp_ns, registry);
     document.Accept(&builder);
   } else {
-- 
2.43.0


From 2a3ef3c0d1f47b6acd04517c1513959e91822fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:28 +0000
Subject: [PATCH 53/70] fix: generated code does not compile when names have
 characters that C++ identifiers lack

---
 src/fast_type_gen/codegen_base.cpp | 17 +++++++++++------
 src/fast_type_gen/cpp_gen.cpp      |  3 ++-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/fast_type_gen/codegen_base.cpp b/src/fast_type_gen/codegen_base.cpp
index 481031c..3b430b9 100644
--- a/src/fast_type_gen/codegen_base.cpp
+++ b/src/fast_type_gen/codegen_base.cpp
@@ -129,6 +129,11 @@ public:
   type_name_finder(const char *caller_cpp_ns, std::set<std::string> *dependency)
       : caller_cpp_ns_(caller_cpp_ns), dependency_(dependency) {}
 
+  // the elements of sequences of sequences don't have names
+  static std::string cpp_name_of(const field_instruction *inst) {
+    return inst->name()[0] ? codegen_base::cpp_name(inst) : std::string();
+  }
+
   virtual void visit(const int32_field_instruction *, void *) override {
     name_ = "mfast::int32";
   }
@@ -167,9 +172,9 @@ public:
       inst->ref_instruction()->accept(*this, pIndex);
     } else if (inst->cpp_ns() == nullptr || inst->cpp_ns()[0] == 0 ||
                strcmp(caller_cpp_ns_, inst->cpp_ns()) == 0) {
-      name_ = inst->name();
+      name_ = cpp_name_of(inst);
     } else {
-      name_ = std::string(inst->cpp_ns()) + "::" + inst->name();
+      name_ = std::string(inst->cpp_ns()) + "::" + cpp_name_of(inst);
       if (dependency_)
         dependency_->insert(inst->cpp_ns());
     }
@@ -209,9 +214,9 @@ public:
       inst->ref_instruction()->accept(*this, pIndex);
     } else if (inst->cpp_ns() == nullptr || inst->cpp_ns()[0] == 0 ||
                strcmp(caller_cpp_ns_, inst->cpp_ns()) == 0) {
-      name_ = inst->name();
+      name_ = cpp_name_of(inst);
     } else {
-      name_ = std::string(inst->cpp_ns()) + "::" + inst->name();
+      name_ = std::string(inst->cpp_ns()) + "::" + cpp_name_of(inst);
       if (dependency_)
         dependency_->insert(inst->cpp_ns());
     }
@@ -223,9 +228,9 @@ public:
       inst->ref_instruction()->accept(*this, pIndex);
     } else if (inst->cpp_ns() == nullptr || inst->cpp_ns()[0] == 0 ||
                strcmp(caller_cpp_ns_, inst->cpp_ns()) == 0) {
-      name_ = inst->name();
+      name_ = cpp_name_of(inst);
     } else {
-      name_ = std::string(inst->cpp_ns()) + "::" + inst->name();
+      name_ = std::string(inst->cpp_ns()) + "::" + cpp_name_of(inst);
       if (dependency_)
         dependency_->insert(inst->cpp_ns());
     }
diff --git a/src/fast_type_gen/cpp_gen.cpp b/src/fast_type_gen/cpp_gen.cpp
index 045e394..bd1ca7c 100644
--- a/src/fast_type_gen/cpp_gen.cpp
+++ b/src/fast_type_gen/cpp_gen.cpp
@@ -43,11 +43,12 @@ const char *get_presence(const mfast::field_instruction *inst) {
   return "presence_mandatory";
 }
 
-std::string cpp_gen::gen_op_context(const char *name,
+std::string cpp_gen::gen_op_context(const char *field_name,
                                     const mfast::op_context_t *context) {
   if (context == nullptr)
     return "nullptr";
 
+  std::string name = cpp_name(field_name);
   out_ << "const static "
        << "op_context_t " << prefix_string() << name << "_opContext ={\n"
        << "  \"" << context->key_ << "\", \n"
-- 
2.43.0


From 9caf619d71de704de238018bf0b9022e41af49f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:28 +0000
Subject: [PATCH 54/70] fix: initial values of strings are not escaped in
 generated code

---
 src/fast_type_gen/cpp_gen.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/fast_type_gen/cpp_gen.cpp b/src/fast_type_gen/cpp_gen.cpp
index bd1ca7c..4459599 100644
--- a/src/fast_type_gen/cpp_gen.cpp
+++ b/src/fast_type_gen/cpp_gen.cpp
@@ -160,6 +160,22 @@ void cpp_gen::visit(const mfast::decimal_field_instruction *inst,
        << "  " << inst->tag() << "); // tag\n\n";
 }
 
+// the contents of a C++ string literal
+static std::string escape_string(const char *str, std::size_t len) {
+  std::stringstream strm;
+  for (std::size_t i = 0; i < len; ++i) {
+    unsigned char c = static_cast<unsigned char>(str[i]);
+    if (c == '"' || c == '\\' || c == '?')
+      strm << '\\' << str[i];
+    else if (c < ' ')
+      strm << '\\' << std::oct << std::setw(3) << std::setfill('0')
+           << static_cast<int>(c);
+    else
+      strm << str[i];
+  }
+  return strm.str();
+}
+
 void cpp_gen::gen_string(const mfast::ascii_field_instruction *inst,
                          const char *charset, void *pIndex) {
   gen_field(inst, gen_op_context(inst->name(), inst->op_context()), charset,
@@ -170,7 +186,9 @@ void cpp_gen::gen_string(const mfast::ascii_field_instruction *inst,
          << "string_value_storage()";
   } else {
     out_ << "  "
-         << "string_value_storage(\"" << inst->initial_value().get<char *>()
+         << "string_value_storage(\""
+         << escape_string(inst->initial_value().get<char *>(),
+                          inst->initial_value().array_length())
          << "\"," << inst->initial_value().array_length() << ")";
   }
 }
-- 
2.43.0


From db725e9d32e9c6666f3aac2083606c0259edb11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:28 +0000
Subject: [PATCH 55/70] fix: tags of unicode strings are missing in generated
 code

---
 src/fast_type_gen/cpp_gen.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fast_type_gen/cpp_gen.cpp b/src/fast_type_gen/cpp_gen.cpp
index 4459599..c3f51df 100644
--- a/src/fast_type_gen/cpp_gen.cpp
+++ b/src/fast_type_gen/cpp_gen.cpp
@@ -206,7 +206,8 @@ void cpp_gen::visit(const mfast::unicode_field_instruction *inst,
     out_ << ", // initial value\n"
          << "  " << inst->length_id() << ", // length id\n"
          << "  \"" << inst->length_name() << "\", // length name\n"
-         << "  \"" << inst->length_ns() << "\"); // length ns\n\n";
+         << "  \"" << inst->length_ns() << "\", // length ns\n"
+         << "  " << inst->tag() << "); // tag\n\n";
   } else {
     out_ << ", // initial_value\n"
          << "  " << inst->tag() << "); // tag\n\n";
-- 
2.43.0


From 5278aabec07aa8c2e9e1d4853a9a1a7f9ea1f3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:28 +0000
Subject: [PATCH 56/70] fix: generated code of sets with more than 31 elements
 does not compile

---
 src/fast_type_gen/hpp_gen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fast_type_gen/hpp_gen.cpp b/src/fast_type_gen/hpp_gen.cpp
index a5360b8..979c0d1 100644
--- a/src/fast_type_gen/hpp_gen.cpp
+++ b/src/fast_type_gen/hpp_gen.cpp
@@ -692,7 +692,7 @@ void hpp_gen::visit(const mfast::set_field_instruction *inst, void *pIndex)
       if (i == 0)
         header_cref_ << " = 1";
       else
-        header_cref_ << " = 1 << " << i;
+        header_cref_ << " = 1ULL << " << i;
       if (i + 1 < inst->num_elements())
         header_cref_ << ",\n";
     }
-- 
2.43.0


From 40a6fd4cb853117088ad34756195e3653b495529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:45 +0000
Subject: [PATCH 57/70] fix: generated code of inline sets does not compile

---
 src/fast_type_gen/inl_gen.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fast_type_gen/inl_gen.cpp b/src/fast_type_gen/inl_gen.cpp
index 9f11812..70c9ef0 100644
--- a/src/fast_type_gen/inl_gen.cpp
+++ b/src/fast_type_gen/inl_gen.cpp
@@ -1121,6 +1121,11 @@ void inl_gen::visit(const mfast::set_field_instruction *inst, void *pIndex)
            << "}\n\n";
     }
   }
+  if (inst->ref_instruction() == nullptr)
+  {
+    gen_accessors(inst, name, cref_type_name, mref_type_name, pIndex);
+    return;
+  }
   std::string ret_type = cpp_type_of(inst, nullptr);
   auto ret_cref = ret_type + "_cref";
   auto ret_mref = ret_type + "_mref";
-- 
2.43.0


From a8c2d6b6c6619d3ece65eb2d870adcad03d7967f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:31 +0000
Subject: [PATCH 58/70] fix: field_type_name() reads past the end of its table
 for enums, sets and templates

---
 src/mfast/instructions/field_instruction.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mfast/instructions/field_instruction.cpp b/src/mfast/instructions/field_instruction.cpp
index 37dcf05..65e9f72 100644
--- a/src/mfast/instructions/field_instruction.cpp
+++ b/src/mfast/instructions/field_instruction.cpp
@@ -36,7 +36,9 @@ const char *field_instruction::field_type_name() const {
       "field_type_decimal",        "field_type_exponent",
       "field_type_templateref",    "field_type_ascii_string",
       "field_type_unicode_string", "field_type_byte_vector",
-      "field_type_group",          "field_type_sequence",
+      "field_type_int32_vector",   "field_type_uint32_vector",
+      "field_type_int64_vector",   "field_type_uint64_vector",
+      "field_type_sequence",       "field_type_group",
       "field_type_template",       "field_type_enum",
       "field_type_set",
   };
-- 
2.43.0


From b4833336a63327d8316e61206dc7b51a4b5cd57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:31 +0000
Subject: [PATCH 59/70] fix: field_mref::as() rejects set fields and decimals
 with individual operators

---
 src/mfast/field_mref.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mfast/field_mref.h b/src/mfast/field_mref.h
index d33dce8..72ed044 100644
--- a/src/mfast/field_mref.h
+++ b/src/mfast/field_mref.h
@@ -70,9 +70,11 @@ template <typename T> void field_mref::as(T value) {
     break;
   case field_type_uint64:
   case field_type_enum:
+  case field_type_set:
     static_cast<uint64_mref>(*this).as(static_cast<uint64_t>(value));
     break;
   case field_type_decimal:
+  case field_type_exponent:
     static_cast<decimal_mref>(*this).as(value);
     break;
   default:
@@ -96,7 +98,8 @@ inline void field_mref::as(const char *value) {
 }
 
 inline void field_mref::as(const decimal &value) {
-  if (this->instruction()->field_type() == field_type_decimal)
+  if (this->instruction()->field_type() == field_type_decimal ||
+      this->instruction()->field_type() == field_type_exponent)
     static_cast<decimal_mref>(*this).as(value);
   else
     BOOST_THROW_EXCEPTION(incompatible_type_conversion_error(
-- 
2.43.0


From 69f0a0ebcf56a047758562c67e10a5c12bfb7a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:11 +0000
Subject: [PATCH 60/70] fix: comparing fields takes absent strings, vectors,
 groups and sequences for empty ones

---
 src/mfast/field_comparator.h | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/mfast/field_comparator.h b/src/mfast/field_comparator.h
index 3749125..b340043 100644
--- a/src/mfast/field_comparator.h
+++ b/src/mfast/field_comparator.h
@@ -15,34 +15,45 @@ public:
   field_comparator(const field_cref &rhs) : rhs_(rhs) {}
   template <typename SimpleType> bool visit(const SimpleType &lhs) const {
     SimpleType rhs = static_cast<SimpleType>(rhs_);
+    // the operator == of strings and vectors ignores the presence
+    if (lhs.absent() || rhs.absent())
+      return lhs.absent() == rhs.absent();
     return lhs == rhs;
   }
 
   static bool compare(const aggregate_cref lhs, const aggregate_cref rhs) {
+    if (lhs.absent() || rhs.absent())
+      return lhs.absent() == rhs.absent();
+
     if (lhs.num_fields() == rhs.num_fields()) {
       for (std::size_t i = 0; i < lhs.num_fields(); ++i) {
-        if (lhs.instruction()->field_type() !=
-                rhs.instruction()->field_type() ||
-            lhs.present() != rhs.present())
+        if (lhs.instruction()->field_type() != rhs.instruction()->field_type())
           return false;
 
-        if (lhs.present()) {
-          field_comparator comparator(rhs[i]);
-          if (!apply_accessor(comparator, lhs[i]))
-            return false;
-        }
+        field_comparator comparator(rhs[i]);
+        if (!apply_accessor(comparator, lhs[i]))
+          return false;
       }
       return true;
     }
     return false;
   }
 
-  bool visit(const aggregate_cref &lhs, int) const {
-    return compare(lhs, static_cast<aggregate_cref>(rhs_));
+  bool visit(const group_cref &lhs, int) const {
+    group_cref rhs(rhs_);
+    if (lhs.absent() || rhs.absent())
+      return lhs.absent() == rhs.absent();
+    return compare(aggregate_cref(lhs), aggregate_cref(rhs_));
+  }
+
+  bool visit(const nested_message_cref &lhs, int) const {
+    return compare(lhs, aggregate_cref(rhs_));
   }
 
   bool visit(const sequence_cref &lhs, int) const {
     sequence_cref rhs = static_cast<sequence_cref>(rhs_);
+    if (lhs.absent() || rhs.absent())
+      return lhs.absent() == rhs.absent();
     if (lhs.num_fields() == rhs.num_fields() && lhs.size() == rhs.size()) {
       for (std::size_t i = 0; i < lhs.size(); ++i) {
         if (!compare(lhs[i], rhs[i]))
-- 
2.43.0


From b5cea2048644b55ebdabeacbed123a4c9adfb550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:11 +0000
Subject: [PATCH 61/70] fix: comparing messages of different templates confuses
 the types of their fields

---
 src/mfast/field_comparator.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mfast/field_comparator.h b/src/mfast/field_comparator.h
index b340043..9e9eff0 100644
--- a/src/mfast/field_comparator.h
+++ b/src/mfast/field_comparator.h
@@ -27,7 +27,10 @@ public:
 
     if (lhs.num_fields() == rhs.num_fields()) {
       for (std::size_t i = 0; i < lhs.num_fields(); ++i) {
-        if (lhs.instruction()->field_type() != rhs.instruction()->field_type())
+        if (lhs.instruction()->field_type() !=
+                rhs.instruction()->field_type() ||
+            lhs.subinstruction(i)->field_type() !=
+                rhs.subinstruction(i)->field_type())
           return false;
 
         field_comparator comparator(rhs[i]);
-- 
2.43.0


From e1e6735ce6e9f4f00bd87cdaccd7d95fe77a6cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:11 +0000
Subject: [PATCH 62/70] fix: comparing messages crashes for dynamic template
 references without a target

---
 src/mfast/field_comparator.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mfast/field_comparator.h b/src/mfast/field_comparator.h
index 9e9eff0..6a0f6c2 100644
--- a/src/mfast/field_comparator.h
+++ b/src/mfast/field_comparator.h
@@ -50,7 +50,12 @@ public:
   }
 
   bool visit(const nested_message_cref &lhs, int) const {
-    return compare(lhs, aggregate_cref(rhs_));
+    nested_message_cref rhs(rhs_);
+    // dynamic template references may not have been bound yet
+    if (lhs.target_instruction() == nullptr ||
+        rhs.target_instruction() == nullptr)
+      return lhs.target_instruction() == rhs.target_instruction();
+    return compare(aggregate_cref(lhs), aggregate_cref(rhs));
   }
 
   bool visit(const sequence_cref &lhs, int) const {
-- 
2.43.0


From a1ffad82f3727e5ba87188263fa3a468b284f451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:36 +0000
Subject: [PATCH 63/70] fix: comparing fields of generated enum and set types
 ignores whether they are absent

---
 src/mfast/enum_ref.h | 9 +++++++--
 src/mfast/set_ref.h  | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/mfast/enum_ref.h b/src/mfast/enum_ref.h
index aadbe4a..64542f0 100644
--- a/src/mfast/enum_ref.h
+++ b/src/mfast/enum_ref.h
@@ -132,8 +132,13 @@ public:
       : enum_cref(storage, instruction) {}
 
   enum_cref_ex(const field_cref &other) : enum_cref(other) {}
-  bool operator==(const Derived &v) const { return this->value() == v.value(); }
-  bool operator==(element_type v) const { return this->value() == v; }
+  bool operator==(const Derived &v) const {
+    return (this->absent() == v.absent()) &&
+           (this->absent() || this->value() == v.value());
+  }
+  bool operator==(element_type v) const {
+    return this->present() && this->value() == v;
+  }
   bool operator!=(const Derived &v) const { return !(*this == v); }
   bool operator!=(element_type v) const { return !(*this == v); }
   element_type value() const {
diff --git a/src/mfast/set_ref.h b/src/mfast/set_ref.h
index 6d0adcd..2c174a7 100644
--- a/src/mfast/set_ref.h
+++ b/src/mfast/set_ref.h
@@ -139,8 +139,13 @@ namespace detail {
       set_cref(storage, instruction) {}
 
     set_cref_ex(const field_cref &other) : set_cref(other) {}
-    bool operator==(const Derived &v) const { return this->value() == v.value(); }
-    bool operator==(element_type v) const { return this->value() == v; }
+    bool operator==(const Derived &v) const {
+      return (this->absent() == v.absent()) &&
+             (this->absent() || this->value() == v.value());
+    }
+    bool operator==(element_type v) const {
+      return this->present() && this->value() == v;
+    }
     bool operator!=(const Derived &v) const { return !(*this == v); }
     bool operator!=(element_type v) const { return !(*this == v); }
     element_type value() const
-- 
2.43.0


From 477714e4755476a12d8eb078e2544049411b4523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:55 +0000
Subject: [PATCH 64/70] fix: SQLite converter: release statements and the
 connection

---
 src/mfast/sqlite3/converter_core.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/mfast/sqlite3/converter_core.cpp b/src/mfast/sqlite3/converter_core.cpp
index 59ebfde..38171c1 100644
--- a/src/mfast/sqlite3/converter_core.cpp
+++ b/src/mfast/sqlite3/converter_core.cpp
@@ -31,12 +31,20 @@ converter_core::converter_core(const char *dbfile, const field_masks &mask)
     : field_masks(mask) {
   if (sqlite3_open_v2(dbfile, &db_, SQLITE_OPEN_CREATE | SQLITE_OPEN_READWRITE,
                       nullptr)) {
-    BOOST_THROW_EXCEPTION(sqlite3_error(db_, "sqlite3_open")
-                          << boost::errinfo_file_name(dbfile));
+    sqlite3_error err(db_, "sqlite3_open");
+    sqlite3_close(db_);
+    BOOST_THROW_EXCEPTION(err << boost::errinfo_file_name(dbfile));
   }
 }
 
-converter_core::~converter_core() { sqlite3_close(db_); }
+converter_core::~converter_core() {
+  // a connection with statements left cannot be closed
+  for (auto &&entry : infos_) {
+    sqlite3_finalize(entry.second.insert_stmt_);
+    sqlite3_finalize(entry.second.find_key_stmt_);
+  }
+  sqlite3_close(db_);
+}
 
 void converter_core::add(const template_instruction *inst,
                          bool to_create_tables) {
@@ -58,6 +66,10 @@ void converter_core::add(const template_instruction *inst,
         std::cout << "preparing statement : " << v.second.insert_item_stmt << "\n";
 #endif
     template_info &info = infos_[v.first];
+    sqlite3_finalize(info.insert_stmt_);
+    info.insert_stmt_ = nullptr;
+    sqlite3_finalize(info.find_key_stmt_);
+    info.find_key_stmt_ = nullptr;
     if (sqlite3_prepare_v2(db_, v.second.insert_item_stmt.c_str(),
                            v.second.insert_item_stmt.size(), &info.insert_stmt_,
                            nullptr) != SQLITE_OK) {
-- 
2.43.0


From 6bef11248e776a77befa2c37ec09ba25fb44e07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:35 +0000
Subject: [PATCH 65/70] fix: SQLite converter: store integers and row ids with
 64 bits

---
 src/mfast/sqlite3/aggregate_inserter.cpp |  2 +-
 src/mfast/sqlite3/converter_core.cpp     | 14 +++++++-------
 src/mfast/sqlite3/converter_core.h       |  2 +-
 src/mfast/sqlite3/first_pass_visitor.h   |  4 ++--
 src/mfast/sqlite3/third_pass_visitor.cpp |  2 +-
 src/mfast/sqlite3/third_pass_visitor.h   |  2 +-
 6 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/mfast/sqlite3/aggregate_inserter.cpp b/src/mfast/sqlite3/aggregate_inserter.cpp
index 4e1c857..3f95a07 100644
--- a/src/mfast/sqlite3/aggregate_inserter.cpp
+++ b/src/mfast/sqlite3/aggregate_inserter.cpp
@@ -11,7 +11,7 @@ aggregate_inserter::aggregate_inserter(const converter_core &core)
 
 field_cref aggregate_inserter::insert(const aggregate_cref &ref,
                                       const field_cref &foreign_key) {
-  int rowid = 0;
+  int64_t rowid = 0;
   first_pass_visitor first_vistor(core_, ref.instruction(), foreign_key);
   first_vistor.visit(ref, 0);
   rowid = first_vistor.inserted_id();
diff --git a/src/mfast/sqlite3/converter_core.cpp b/src/mfast/sqlite3/converter_core.cpp
index 38171c1..0289aaa 100644
--- a/src/mfast/sqlite3/converter_core.cpp
+++ b/src/mfast/sqlite3/converter_core.cpp
@@ -117,14 +117,14 @@ field_cref converter_core::primary_key_of(const aggregate_cref &ref) const {
   return ref[primary_key_index];
 }
 
-int converter_core::exec_stmt(const template_info &info) const {
+int64_t converter_core::exec_stmt(const template_info &info) const {
 #if 0
       std::cout << "executing " << info.insert_text_ << "\n"
                 << "with binding : " << format_binding(info.binding_) << "\n";
 #endif
   if (sqlite3_step(info.insert_stmt_) == SQLITE_DONE) {
     sqlite3_reset(info.insert_stmt_);
-    int rowid = sqlite3_last_insert_rowid(db_);
+    int64_t rowid = sqlite3_last_insert_rowid(db_);
     return rowid;
   }
 
@@ -137,7 +137,7 @@ int converter_core::exec_stmt(const template_info &info) const {
 #endif
     int ret = sqlite3_step(info.find_key_stmt_);
     if (ret == SQLITE_ROW) {
-      int result = sqlite3_column_int(info.find_key_stmt_, 0);
+      int64_t result = sqlite3_column_int64(info.find_key_stmt_, 0);
 #if 0
       std::cout << "rowid found at " << result << "\n";
 #endif
@@ -156,12 +156,12 @@ void converter_core::bind(const template_info &info, unsigned column,
                           int64_t value) const {
   info.binding_[column] = boost::lexical_cast<std::string>(value);
 
-  if (sqlite3_bind_int(info.insert_stmt_, column, value) != SQLITE_OK)
-    BOOST_THROW_EXCEPTION(sqlite3_error(db_, "sqlite3_bind_int"));
+  if (sqlite3_bind_int64(info.insert_stmt_, column, value) != SQLITE_OK)
+    BOOST_THROW_EXCEPTION(sqlite3_error(db_, "sqlite3_bind_int64"));
 
   if (info.find_key_stmt_)
-    if (sqlite3_bind_int(info.find_key_stmt_, column, value) != SQLITE_OK)
-      BOOST_THROW_EXCEPTION(sqlite3_error(db_, "sqlite3_bind_int"));
+    if (sqlite3_bind_int64(info.find_key_stmt_, column, value) != SQLITE_OK)
+      BOOST_THROW_EXCEPTION(sqlite3_error(db_, "sqlite3_bind_int64"));
 }
 
 void converter_core::bind(const template_info &info, unsigned column,
diff --git a/src/mfast/sqlite3/converter_core.h b/src/mfast/sqlite3/converter_core.h
index 04cd11d..ee7bda7 100644
--- a/src/mfast/sqlite3/converter_core.h
+++ b/src/mfast/sqlite3/converter_core.h
@@ -27,7 +27,7 @@ public:
 
   field_cref primary_key_of(const aggregate_cref &ref) const;
 
-  int exec_stmt(const template_info &info) const;
+  int64_t exec_stmt(const template_info &info) const;
 
   void bind(const template_info &info, unsigned column, int64_t value) const;
 
diff --git a/src/mfast/sqlite3/first_pass_visitor.h b/src/mfast/sqlite3/first_pass_visitor.h
index 0aefbfa..3d5bb3f 100644
--- a/src/mfast/sqlite3/first_pass_visitor.h
+++ b/src/mfast/sqlite3/first_pass_visitor.h
@@ -8,7 +8,7 @@ namespace SQLite3 {
 class first_pass_visitor : value_binder {
   bool nested_group_pass_needed_;
   bool nested_sequence_pass_needed_;
-  int rowid_;
+  int64_t rowid_;
 
 public:
   first_pass_visitor(const converter_core &core,
@@ -32,7 +32,7 @@ public:
   void visit(const sequence_cref &ref, int);
   void visit(const aggregate_cref &ref, int);
 
-  int inserted_id() const { return rowid_; }
+  int64_t inserted_id() const { return rowid_; }
   bool nested_group_pass_needed() const { return nested_group_pass_needed_; }
   bool nested_sequence_pass_needed() const {
     return nested_sequence_pass_needed_;
diff --git a/src/mfast/sqlite3/third_pass_visitor.cpp b/src/mfast/sqlite3/third_pass_visitor.cpp
index a4d8148..2e9a786 100644
--- a/src/mfast/sqlite3/third_pass_visitor.cpp
+++ b/src/mfast/sqlite3/third_pass_visitor.cpp
@@ -3,7 +3,7 @@
 #include "sequence_inserter.h"
 namespace mfast {
 namespace SQLite3 {
-void third_pass_visitor::visit(const aggregate_cref &ref, int rowid) {
+void third_pass_visitor::visit(const aggregate_cref &ref, int64_t rowid) {
 
   primary_key_.refers_to(core_.primary_key_of(ref));
 
diff --git a/src/mfast/sqlite3/third_pass_visitor.h b/src/mfast/sqlite3/third_pass_visitor.h
index 3354ee1..899a1ad 100644
--- a/src/mfast/sqlite3/third_pass_visitor.h
+++ b/src/mfast/sqlite3/third_pass_visitor.h
@@ -15,7 +15,7 @@ public:
 
   void visit(const group_cref &ref, int);
   void visit(const sequence_cref &ref, int);
-  void visit(const aggregate_cref &ref, int rowid);
+  void visit(const aggregate_cref &ref, int64_t rowid);
 };
 
 } /* SQLite3 */
-- 
2.43.0


From 0bfe95237159ef0cde51de435436546651a0e26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:23 +0000
Subject: [PATCH 66/70] fix: SQLite converter: columns of absent groups and of
 absent or empty sequences

---
 src/mfast/sqlite3/first_pass_visitor.cpp  | 14 +++++++++++++-
 src/mfast/sqlite3/second_pass_visitor.cpp |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/mfast/sqlite3/first_pass_visitor.cpp b/src/mfast/sqlite3/first_pass_visitor.cpp
index 2efde54..db8c6d3 100644
--- a/src/mfast/sqlite3/first_pass_visitor.cpp
+++ b/src/mfast/sqlite3/first_pass_visitor.cpp
@@ -82,7 +82,14 @@ void first_pass_visitor::visit(const sequence_cref &ref, int) {
   if (ref_instruction == nullptr && element_instruction == nullptr) {
     null_binder_visitor binder(core_, info_, current_column_);
     binder.bind(inst);
+    if (core_.is_ordered(inst))
+      this->bind_null();
   } else {
+    if (ref_instruction == nullptr) {
+      this->bind_null();
+      if (core_.is_ordered(inst))
+        this->bind_null();
+    }
     nested_group_pass_needed_ = true;
   }
   nested_sequence_pass_needed_ = (ref_instruction == nullptr);
@@ -102,9 +109,14 @@ void first_pass_visitor::traverse(const aggregate_cref &ref) {
   for (std::size_t i = 0; i < ref.num_fields(); ++i) {
     field_cref field(ref[i]);
     if (!core_.to_skip(field)) {
-      if (field.absent()) {
+      if (field.absent() && field.field_type() == field_type_group) {
+        // an absent group has as many columns as a present one
+        null_binder_visitor binder(core_, info_, current_column_);
+        field.instruction()->accept(binder, nullptr);
+      } else if (field.absent() && field.field_type() != field_type_sequence) {
         this->bind_null();
       } else {
+        // an absent sequence is the same as an empty one here
         apply_accessor(*this, field);
       }
     }
diff --git a/src/mfast/sqlite3/second_pass_visitor.cpp b/src/mfast/sqlite3/second_pass_visitor.cpp
index 37f8dcf..d5d0f95 100644
--- a/src/mfast/sqlite3/second_pass_visitor.cpp
+++ b/src/mfast/sqlite3/second_pass_visitor.cpp
@@ -15,7 +15,7 @@ void second_pass_visitor::visit(const sequence_cref &ref, int) {
   bool is_ordered = core_.is_ordered(inst);
 
   if (ref_instruction == nullptr) {
-    if (ref.size()) {
+    if (ref.present() && ref.size()) {
 
       if (element_instruction) {
         // output all the data in the sequence and then collect all the primary
-- 
2.43.0


From d7b7576e4d38ccb3cf9c7bcf0c0f94d758d55440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:12 +0000
Subject: [PATCH 67/70] fix: SQLite converter: usable after a refused message

---
 src/mfast/sqlite3/converter_core.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/mfast/sqlite3/converter_core.cpp b/src/mfast/sqlite3/converter_core.cpp
index 0289aaa..a0f0265 100644
--- a/src/mfast/sqlite3/converter_core.cpp
+++ b/src/mfast/sqlite3/converter_core.cpp
@@ -128,6 +128,9 @@ int64_t converter_core::exec_stmt(const template_info &info) const {
     return rowid;
   }
 
+  // otherwise the next message could not be bound to the statement
+  sqlite3_reset(info.insert_stmt_);
+  sqlite3_error err(db_, "sqlite3_step");
   std::string saved_reason = sqlite3_errmsg(db_);
 
   if (info.find_key_stmt_) {
@@ -141,15 +144,14 @@ int64_t converter_core::exec_stmt(const template_info &info) const {
 #if 0
       std::cout << "rowid found at " << result << "\n";
 #endif
-      sqlite3_reset(info.insert_stmt_);
       sqlite3_reset(info.find_key_stmt_);
       return result;
     }
+    sqlite3_reset(info.find_key_stmt_);
   }
-  BOOST_THROW_EXCEPTION(sqlite3_error(db_, "sqlite3_step")
-                        << statement_info(info.insert_text_)
-                        << binding_info(info.binding_)
-                        << reason_info(saved_reason));
+  BOOST_THROW_EXCEPTION(err << statement_info(info.insert_text_)
+                            << binding_info(info.binding_)
+                            << reason_info(saved_reason));
 }
 
 void converter_core::bind(const template_info &info, unsigned column,
-- 
2.43.0


From f9316767b8a2dd6014afd1751858fb5252825df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:33 +0000
Subject: [PATCH 68/70] fix: SQLite converter: store a message completely or
 not at all

---
 src/mfast/sqlite3/converter.cpp      |  9 ++++++++-
 src/mfast/sqlite3/converter_core.cpp | 18 ++++++++++++++++++
 src/mfast/sqlite3/converter_core.h   |  5 +++++
 3 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/mfast/sqlite3/converter.cpp b/src/mfast/sqlite3/converter.cpp
index a3ce101..6bafe18 100644
--- a/src/mfast/sqlite3/converter.cpp
+++ b/src/mfast/sqlite3/converter.cpp
@@ -16,7 +16,14 @@ void converter::add_instruction(const mfast::template_instruction *inst,
 
 void converter::insert(const aggregate_cref &ref) {
   aggregate_inserter inserter(*core_);
-  inserter.insert(ref, field_cref());
+  core_->begin_transaction();
+  try {
+    inserter.insert(ref, field_cref());
+    core_->commit_transaction();
+  } catch (...) {
+    core_->rollback_transaction();
+    throw;
+  }
 }
 
 } /* SQLite3 */
diff --git a/src/mfast/sqlite3/converter_core.cpp b/src/mfast/sqlite3/converter_core.cpp
index a0f0265..a747cda 100644
--- a/src/mfast/sqlite3/converter_core.cpp
+++ b/src/mfast/sqlite3/converter_core.cpp
@@ -117,6 +117,24 @@ field_cref converter_core::primary_key_of(const aggregate_cref &ref) const {
   return ref[primary_key_index];
 }
 
+void converter_core::begin_transaction() {
+  if (!sqlite3_get_autocommit(db_))
+    rollback_transaction();
+  if (sqlite3_exec(db_, "BEGIN", nullptr, nullptr, nullptr) != SQLITE_OK)
+    BOOST_THROW_EXCEPTION(sqlite3_error(db_, "sqlite3_exec"));
+}
+
+void converter_core::commit_transaction() {
+  if (sqlite3_exec(db_, "COMMIT", nullptr, nullptr, nullptr) != SQLITE_OK)
+    BOOST_THROW_EXCEPTION(sqlite3_error(db_, "sqlite3_exec"));
+}
+
+void converter_core::rollback_transaction() {
+  // after some errors there is no transaction any more
+  if (!sqlite3_get_autocommit(db_))
+    sqlite3_exec(db_, "ROLLBACK", nullptr, nullptr, nullptr);
+}
+
 int64_t converter_core::exec_stmt(const template_info &info) const {
 #if 0
       std::cout << "executing " << info.insert_text_ << "\n"
diff --git a/src/mfast/sqlite3/converter_core.h b/src/mfast/sqlite3/converter_core.h
index ee7bda7..5c0f011 100644
--- a/src/mfast/sqlite3/converter_core.h
+++ b/src/mfast/sqlite3/converter_core.h
@@ -27,6 +27,11 @@ public:
 
   field_cref primary_key_of(const aggregate_cref &ref) const;
 
+  // the rows of a message are stored together or not at all
+  void begin_transaction();
+  void commit_transaction();
+  void rollback_transaction();
+
   int64_t exec_stmt(const template_info &info) const;
 
   void bind(const template_info &info, unsigned column, int64_t value) const;
-- 
2.43.0


From cf5981c8e2f142ef72dc8531082c716c71eefb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:15 +0000
Subject: [PATCH 69/70] fix: distances of sequence iterators to earlier
 positions are wrong

---
 src/mfast/sequence_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/sequence_ref.h b/src/mfast/sequence_ref.h
index 5fba914..3450b0d 100644
--- a/src/mfast/sequence_ref.h
+++ b/src/mfast/sequence_ref.h
@@ -121,7 +121,7 @@ private:
   void decrement() { advance(-1); }
   int distance_to(sequence_iterator const &other) const {
     return (other.content_storage() - this->content_storage()) /
-           this->element_group_content_byte_count();
+           static_cast<std::ptrdiff_t>(this->element_group_content_byte_count());
   }
 };
 
-- 
2.43.0


From cc17900ded8acd557e71bf986e5ecbc25e8389ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:36 +0000
Subject: [PATCH 70/70] fix: generated code does not compile when enumerations
 of other documents are used

---
 src/fast_type_gen/hpp_gen.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fast_type_gen/hpp_gen.cpp b/src/fast_type_gen/hpp_gen.cpp
index 979c0d1..6ddaacb 100644
--- a/src/fast_type_gen/hpp_gen.cpp
+++ b/src/fast_type_gen/hpp_gen.cpp
@@ -583,7 +583,8 @@ void hpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
   if (inst->ref_instruction()) {
     std::string actual_type_name = cpp_type_of(inst, &dependency_);
     std::string enum_namespace;
-    if (actual_type_name.find("mfast") == std::string::npos)
+    // the names of types from elsewhere are already qualified
+    if (actual_type_name.find("::") == std::string::npos)
     {
       for (auto &&ns : outer_ns_)
         enum_namespace += ns + "::";
-- 
2.43.0

