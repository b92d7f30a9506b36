From bdc14b257e0adff0e2fa59b069d4d7f577084812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:41 +0000
Subject: [PATCH 01/42] fix: reject float literals beyond the range of a double

They were parsed as infinity, which is not the value written and cannot be
printed back.
---
 bluejay-parser/src/lexer/logos_lexer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bluejay-parser/src/lexer/logos_lexer.rs b/bluejay-parser/src/lexer/logos_lexer.rs
index 9d8e1fa..2e24e71 100644
--- a/bluejay-parser/src/lexer/logos_lexer.rs
+++ b/bluejay-parser/src/lexer/logos_lexer.rs
@@ -119,7 +119,9 @@ fn parse_float<'a>(lexer: &mut logos::Lexer<'a, Token<'a>>) -> Result<f64, LexEr
         lexer
             .slice()
             .parse()
-            .map_err(|_| LexError::FloatValueTooLarge)
+            .ok()
+            .filter(|value: &f64| value.is_finite())
+            .ok_or(LexError::FloatValueTooLarge)
     })
 }
 
-- 
2.43.0


From 4741fc1221db36cb820984fb7b9c00dc1832e148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 02/42] fix: decode a surrogate pair that follows other unicode
 escapes

---
 bluejay-parser/src/lexer/logos_lexer/string_lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bluejay-parser/src/lexer/logos_lexer/string_lexer.rs b/bluejay-parser/src/lexer/logos_lexer/string_lexer.rs
index cb4575b..1413343 100644
--- a/bluejay-parser/src/lexer/logos_lexer/string_lexer.rs
+++ b/bluejay-parser/src/lexer/logos_lexer/string_lexer.rs
@@ -17,7 +17,7 @@ pub(super) enum Token<'a> {
     FixedWidthEscapedUnicode(Option<char>),
 
     #[regex(
-        r"(?&fixedunicode)(?&fixedunicode)",
+        r"\\u[dD][89a-fA-F](?&hexdigit)(?&hexdigit)(?&fixedunicode)",
         parse_surrogate_pair_escaped_unicode
     )]
     SurrogatePairEscapedUnicode(Result<(char, Option<char>), Span>),
-- 
2.43.0


From 07e4bb6d62c3c92279e3e1ef12dcbc10f089becf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:39 +0000
Subject: [PATCH 03/42] fix: accept braced unicode escapes with leading zeros

---
 bluejay-parser/src/lexer/logos_lexer/string_lexer.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/bluejay-parser/src/lexer/logos_lexer/string_lexer.rs b/bluejay-parser/src/lexer/logos_lexer/string_lexer.rs
index 1413343..38a8ea7 100644
--- a/bluejay-parser/src/lexer/logos_lexer/string_lexer.rs
+++ b/bluejay-parser/src/lexer/logos_lexer/string_lexer.rs
@@ -60,11 +60,10 @@ pub(super) enum Token<'a> {
 }
 
 fn parse_escaped_unicode<'a>(lexer: &mut Lexer<'a, Token<'a>>) -> Option<char> {
-    (lexer.slice().len() < 13).then_some(()).and_then(|_| {
-        u32::from_str_radix(&lexer.slice()[3..lexer.slice().len() - 1], 16)
-            .ok()
-            .and_then(char::from_u32)
-    })
+    // leading zeros are insignificant, and a value too large for a u32 is an error
+    u32::from_str_radix(&lexer.slice()[3..lexer.slice().len() - 1], 16)
+        .ok()
+        .and_then(char::from_u32)
 }
 
 fn parse_fixed_width_escaped_unicode<'a>(lexer: &mut Lexer<'a, Token<'a>>) -> Option<char> {
-- 
2.43.0


From d718895f4cffb4e5ac928873c566b1d2e7387cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:15 +0000
Subject: [PATCH 04/42] fix: check fragment selection sets against the
 fragment's own type when merging fields

---
 .../src/executable/document/rules/field_selection_merging.rs    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
index 939ba56..41fe9fc 100644
--- a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
+++ b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
@@ -299,7 +299,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
                         {
                             if self.selection_set_valid(
                                 fragment_definition.selection_set(),
-                                parent_type,
+                                scoped_type,
                             ) {
                                 let mut new_parent_fragments = HashSet::new();
                                 new_parent_fragments.clone_from(parent_fragments);
-- 
2.43.0


From 00cd162c99ea9a1959ce93ebb4e80cabd9d0ad99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:15 +0000
Subject: [PATCH 05/42] fix: detect conflicts between fields selected on unions
 and on their members

---
 .../src/executable/document/rules/field_selection_merging.rs   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
index 41fe9fc..d0569df 100644
--- a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
+++ b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
@@ -151,7 +151,8 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
                             .entry(otd.name())
                             .or_default()
                             .push(field_context),
-                        TypeDefinitionReference::Interface(_) => abstract_group.push(field_context),
+                        TypeDefinitionReference::Interface(_)
+                        | TypeDefinitionReference::Union(_) => abstract_group.push(field_context),
                         _ => {}
                     }
                     (abstract_group, concrete_groups)
-- 
2.43.0


From c448aab9491b173a279cda30f6309008a911eb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:15 +0000
Subject: [PATCH 06/42] fix: check variable usages in objects nested in lists

---
 .../document/rules/all_variable_usages_allowed.rs    | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs b/bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs
index f5de1fa..3189e63 100644
--- a/bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs
+++ b/bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs
@@ -84,13 +84,11 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> AllVariableUsagesAllowed<'a
                 }
             }),
             ValueReference::Object(o) => o.iter().for_each(|(key, value)| {
-                if let Some(ivd) = location.input_value_definition() {
-                    if let BaseInputTypeReference::InputObject(iotd) =
-                        ivd.r#type().base(self.schema_definition)
-                    {
-                        if let Some(ivd) = iotd.input_field_definitions().get(key.as_ref()) {
-                            self.visit_value(value, root, VariableUsageLocation::ObjectField(ivd));
-                        }
+                if let BaseInputTypeReference::InputObject(iotd) =
+                    location.r#type().base(self.schema_definition)
+                {
+                    if let Some(ivd) = iotd.input_field_definitions().get(key.as_ref()) {
+                        self.visit_value(value, root, VariableUsageLocation::ObjectField(ivd));
                     }
                 }
             }),
-- 
2.43.0


From 19f89849b8ee6c2a001558c1e2833c93676dd3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:38 +0000
Subject: [PATCH 07/42] fix: count the merged root fields of a subscription

---
 .../src/executable/document/rules.rs          |   2 +-
 ...ubscription_operation_single_root_field.rs | 147 ++++++++++++++----
 2 files changed, 122 insertions(+), 27 deletions(-)

diff --git a/bluejay-validator/src/executable/document/rules.rs b/bluejay-validator/src/executable/document/rules.rs
index caabc0f..5700aff 100644
--- a/bluejay-validator/src/executable/document/rules.rs
+++ b/bluejay-validator/src/executable/document/rules.rs
@@ -55,7 +55,7 @@ pub use variables_are_input_types::VariablesAreInputTypes;
 pub type BuiltinRules<'a, E, S> = (
     NamedOperationNameUniqueness<'a, E>,
     LoneAnonymousOperation<'a, E>,
-    SubscriptionOperationSingleRootField<'a, E>,
+    SubscriptionOperationSingleRootField<'a, E, S>,
     FieldSelections<'a, E, S>,
     FieldSelectionMerging<'a, E, S>,
     OperationTypeIsDefined<'a, E, S>,
diff --git a/bluejay-validator/src/executable/document/rules/subscription_operation_single_root_field.rs b/bluejay-validator/src/executable/document/rules/subscription_operation_single_root_field.rs
index d1093fb..2c12fc1 100644
--- a/bluejay-validator/src/executable/document/rules/subscription_operation_single_root_field.rs
+++ b/bluejay-validator/src/executable/document/rules/subscription_operation_single_root_field.rs
@@ -2,25 +2,31 @@ use crate::executable::{
     document::{Error, Rule, Visitor},
     Cache,
 };
-use bluejay_core::definition::SchemaDefinition;
+use bluejay_core::definition::{
+    ObjectTypeDefinition, SchemaDefinition, TypeDefinitionReference, UnionMemberType,
+    UnionTypeDefinition,
+};
 use bluejay_core::executable::{
-    ExecutableDocument, FragmentDefinition, FragmentSpread, InlineFragment, OperationDefinition,
-    Selection, SelectionReference,
+    ExecutableDocument, Field, FragmentDefinition, FragmentSpread, InlineFragment,
+    OperationDefinition, Selection, SelectionReference,
 };
 use bluejay_core::{AsIter, OperationType};
+use std::collections::{HashMap, HashSet};
 
-pub struct SubscriptionOperationSingleRootField<'a, E: ExecutableDocument> {
+pub struct SubscriptionOperationSingleRootField<'a, E: ExecutableDocument, S: SchemaDefinition> {
     invalid_operation_definitions: Vec<&'a E::OperationDefinition>,
-    executable_document: &'a E,
+    schema_definition: &'a S,
+    cache: &'a Cache<'a, E, S>,
 }
 
 impl<'a, E: ExecutableDocument, S: SchemaDefinition> Visitor<'a, E, S>
-    for SubscriptionOperationSingleRootField<'a, E>
+    for SubscriptionOperationSingleRootField<'a, E, S>
 {
-    fn new(executable_document: &'a E, _: &'a S, _: &'a Cache<'a, E, S>) -> Self {
+    fn new(_: &'a E, schema_definition: &'a S, cache: &'a Cache<'a, E, S>) -> Self {
         Self {
             invalid_operation_definitions: Vec::new(),
-            executable_document,
+            schema_definition,
+            cache,
         }
     }
 
@@ -32,34 +38,123 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> Visitor<'a, E, S>
         ) {
             return;
         }
-        let selection_set = core_operation_definition.selection_set();
-        if selection_set.len() != 1 {
+
+        let mut root_fields = RootFields {
+            names_by_response_name: HashMap::new(),
+            visited_fragments: HashSet::new(),
+            undefined_fragment: false,
+        };
+        self.collect_root_fields(
+            core_operation_definition.selection_set(),
+            self.schema_definition
+                .subscription()
+                .map(ObjectTypeDefinition::name),
+            &mut root_fields,
+        );
+
+        let RootFields {
+            names_by_response_name,
+            undefined_fragment,
+            ..
+        } = root_fields;
+
+        // an undefined fragment gets its own error, and its fields are unknown
+        let is_valid = match names_by_response_name.len() {
+            0 => undefined_fragment,
+            1 => !names_by_response_name
+                .values()
+                .any(|name| name.starts_with("__")),
+            _ => false,
+        };
+
+        if !is_valid {
             self.invalid_operation_definitions
                 .push(operation_definition);
-        } else if let Some(first_selection) = selection_set.iter().next() {
-            let fields_count = match first_selection.as_ref() {
-                SelectionReference::Field(_) => Some(1),
-                SelectionReference::FragmentSpread(fs) => {
-                    let fragment_definition = self
-                        .executable_document
-                        .fragment_definitions()
-                        .find(|fd| fd.name() == fs.name());
-                    fragment_definition.map(|fd| fd.selection_set().len())
+        }
+    }
+}
+
+struct RootFields<'a> {
+    names_by_response_name: HashMap<&'a str, &'a str>,
+    visited_fragments: HashSet<&'a str>,
+    undefined_fragment: bool,
+}
+
+impl<'a, E: ExecutableDocument, S: SchemaDefinition>
+    SubscriptionOperationSingleRootField<'a, E, S>
+{
+    fn collect_root_fields(
+        &self,
+        selection_set: &'a E::SelectionSet,
+        root_type_name: Option<&str>,
+        root_fields: &mut RootFields<'a>,
+    ) {
+        selection_set
+            .iter()
+            .for_each(|selection| match selection.as_ref() {
+                SelectionReference::Field(field) => {
+                    root_fields
+                        .names_by_response_name
+                        .entry(field.response_name())
+                        .or_insert_with(|| field.name());
                 }
                 SelectionReference::InlineFragment(inline_fragment) => {
-                    Some(inline_fragment.selection_set().len())
+                    if inline_fragment
+                        .type_condition()
+                        .map_or(true, |name| self.applies_to_root(name, root_type_name))
+                    {
+                        self.collect_root_fields(
+                            inline_fragment.selection_set(),
+                            root_type_name,
+                            root_fields,
+                        );
+                    }
                 }
-            };
-            if matches!(fields_count, Some(fc) if fc != 1) {
-                self.invalid_operation_definitions
-                    .push(operation_definition);
-            }
+                SelectionReference::FragmentSpread(fragment_spread) => {
+                    let fragment_name = fragment_spread.name();
+                    if !root_fields.visited_fragments.insert(fragment_name) {
+                        return;
+                    }
+                    match self.cache.fragment_definition(fragment_name) {
+                        Some(fragment_definition) => {
+                            if self.applies_to_root(
+                                fragment_definition.type_condition(),
+                                root_type_name,
+                            ) {
+                                self.collect_root_fields(
+                                    fragment_definition.selection_set(),
+                                    root_type_name,
+                                    root_fields,
+                                );
+                            }
+                        }
+                        None => root_fields.undefined_fragment = true,
+                    }
+                }
+            });
+    }
+
+    fn applies_to_root(&self, type_condition: &str, root_type_name: Option<&str>) -> bool {
+        let Some(root_type_name) = root_type_name else {
+            return true;
+        };
+
+        match self.schema_definition.get_type_definition(type_condition) {
+            Some(TypeDefinitionReference::Interface(itd)) => self
+                .schema_definition
+                .get_interface_implementors(itd)
+                .any(|otd| otd.name() == root_type_name),
+            Some(TypeDefinitionReference::Union(utd)) => utd
+                .union_member_types()
+                .iter()
+                .any(|member| member.name() == root_type_name),
+            _ => type_condition == root_type_name,
         }
     }
 }
 
 impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> Rule<'a, E, S>
-    for SubscriptionOperationSingleRootField<'a, E>
+    for SubscriptionOperationSingleRootField<'a, E, S>
 {
     type Error = Error<'a, E, S>;
     type Errors = std::iter::Map<
-- 
2.43.0


From 8c637060b33fce47b06ff5798c88885e5f3a9e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:58 +0000
Subject: [PATCH 08/42] fix: look up the default value of the variable an input
 uses, not of the argument it is given to

---
 .../src/executable/operation/analyzers/input_size.rs            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bluejay-validator/src/executable/operation/analyzers/input_size.rs b/bluejay-validator/src/executable/operation/analyzers/input_size.rs
index d288a17..1a1c15f 100644
--- a/bluejay-validator/src/executable/operation/analyzers/input_size.rs
+++ b/bluejay-validator/src/executable/operation/analyzers/input_size.rs
@@ -128,7 +128,7 @@ fn find_input_size_offenders_arguments<
                 let variable_definition = variable_definitions.map(|variable_definitions| {
                     variable_definitions
                         .iter()
-                        .find(|def| def.variable() == argument_name)
+                        .find(|def| def.variable() == name)
                 });
                 if let Some(Some(var_def)) = variable_definition {
                     let default_value = var_def.default_value();
-- 
2.43.0


From 965178ca0483136809a6ed3610efbc2832057166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:59 +0000
Subject: [PATCH 09/42] fix: saturate the complexity cost instead of
 overflowing

---
 .../src/executable/operation/analyzers/complexity_cost.rs   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs b/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs
index c6b5fbb..50f3b5b 100644
--- a/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs
+++ b/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs
@@ -277,9 +277,11 @@ impl<
 
                 let children_cost = self.merged_max_complexity_for_scopes(&composite_scopes);
 
-                (base_cost + children_cost) * multiplier
+                base_cost
+                    .saturating_add(children_cost)
+                    .saturating_mul(multiplier)
             })
-            .sum()
+            .fold(0, usize::saturating_add)
     }
 
     fn possible_type_names(
-- 
2.43.0


From b78441efb1b769d5340675c7ddd299550c3a28ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:59 +0000
Subject: [PATCH 10/42] fix: report the specification's default deprecation
 reason

---
 .../src/executable/operation/analyzers/deprecation.rs           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bluejay-validator/src/executable/operation/analyzers/deprecation.rs b/bluejay-validator/src/executable/operation/analyzers/deprecation.rs
index ecdb3d4..a88412d 100644
--- a/bluejay-validator/src/executable/operation/analyzers/deprecation.rs
+++ b/bluejay-validator/src/executable/operation/analyzers/deprecation.rs
@@ -154,7 +154,7 @@ fn get_deprecation_reason<N: HasDirectives>(ast_item: &N) -> Option<&str> {
                         }
                     })
             })
-            .unwrap_or("No longer supported.")
+            .unwrap_or("No longer supported")
     })
 }
 
-- 
2.43.0


From 96a5d2c9d9cf775de737693bf3de7bfb17d57973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:00 +0000
Subject: [PATCH 11/42] fix: do not panic when computing the cost of selections
 on a leaf field

---
 .../src/executable/operation/analyzers/complexity_cost.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs b/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs
index 50f3b5b..c3cfa2b 100644
--- a/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs
+++ b/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs
@@ -94,13 +94,17 @@ impl<
         let next_index = self.scopes_arena.next_id();
 
         // Get a mutable reference to the parent scope in the traversal stack
-        let parent_scope = self
+        let Some(parent_scope) = self
             .scopes_stack
             .last()
             .copied()
             .flatten()
             .and_then(|index| self.scopes_arena.get_mut(index))
-            .expect("expected a parent complexity scope");
+        else {
+            // the parent is a leaf field without cost, which has no sub-selections in a valid document
+            self.scopes_stack.push(None);
+            return;
+        };
 
         // Collect any multipliers that the parent scope specifies for this field
         // ie: connection > edges/nodes
-- 
2.43.0


From c9a54ab116ba53649ff13713f24a6ec8c132fe18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:34 +0000
Subject: [PATCH 12/42] fix: print the directives of fragment definitions

---
 .../src/executable/fragment_definition.rs           | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bluejay-printer/src/executable/fragment_definition.rs b/bluejay-printer/src/executable/fragment_definition.rs
index f5542b7..3efad1b 100644
--- a/bluejay-printer/src/executable/fragment_definition.rs
+++ b/bluejay-printer/src/executable/fragment_definition.rs
@@ -1,4 +1,4 @@
-use crate::executable::SelectionSetPrinter;
+use crate::{directive::DirectivesPrinter, executable::SelectionSetPrinter};
 use bluejay_core::executable::FragmentDefinition;
 use std::fmt::{Display, Formatter, Result};
 
@@ -21,10 +21,17 @@ impl<'a, T: FragmentDefinition> Display for FragmentDefinitionPrinter<'a, T> {
         } = *self;
         write!(
             f,
-            "fragment {} on {} {}",
+            "fragment {} on {}",
             fragment_definition.name(),
             fragment_definition.type_condition(),
-            SelectionSetPrinter::new(fragment_definition.selection_set(), 0),
+        )?;
+        if let Some(directives) = fragment_definition.directives() {
+            write!(f, "{}", DirectivesPrinter::new(directives))?;
+        }
+        write!(
+            f,
+            " {}",
+            SelectionSetPrinter::new(fragment_definition.selection_set(), 0)
         )
     }
 }
-- 
2.43.0


From cd790c78189d939ae814e2adda7813cf54ba87d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:35 +0000
Subject: [PATCH 13/42] fix: print floats so that they read back as the same
 value

---
 bluejay-printer/src/value.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/bluejay-printer/src/value.rs b/bluejay-printer/src/value.rs
index 26a2ae3..43843db 100644
--- a/bluejay-printer/src/value.rs
+++ b/bluejay-printer/src/value.rs
@@ -20,13 +20,8 @@ impl<'a, const CONST: bool, V: Value<CONST>> Display for ValuePrinter<'a, CONST,
         match value.as_ref() {
             ValueReference::Boolean(b) => write!(f, "{}", b),
             ValueReference::Enum(e) => write!(f, "{}", e),
-            ValueReference::Float(fl) => {
-                if fl.fract().abs() < 1e-10 {
-                    write!(f, "{fl:.1}")
-                } else {
-                    write!(f, "{fl}")
-                }
-            }
+            // the shortest form that reads back as the same float, always with a fraction or an exponent
+            ValueReference::Float(fl) => write!(f, "{fl:?}"),
             ValueReference::Integer(i) => write!(f, "{}", i),
             ValueReference::List(l) => {
                 write!(f, "[")?;
-- 
2.43.0


From 9d7fb858c1fec1452eb3c0887fd8f2dfe9611b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:35 +0000
Subject: [PATCH 14/42] fix: print descriptions a block string cannot represent
 as quoted strings

---
 bluejay-printer/src/string_value.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/bluejay-printer/src/string_value.rs b/bluejay-printer/src/string_value.rs
index a5aba3f..ebc6254 100644
--- a/bluejay-printer/src/string_value.rs
+++ b/bluejay-printer/src/string_value.rs
@@ -35,12 +35,33 @@ impl<'a> BlockStringValuePrinter<'a> {
     pub(crate) fn new(value: &'a str, indentation: usize) -> Self {
         Self { value, indentation }
     }
+
+    /// Whether the value reads back unchanged from a block string, which loses the difference
+    /// between line terminators, leading and trailing blank lines and common indentation.
+    fn is_representable(value: &str) -> bool {
+        fn is_blank(line: &str) -> bool {
+            line.chars().all(|c| matches!(c, ' ' | '\t'))
+        }
+
+        value.is_empty()
+            || (!value.contains('\r')
+                && !value.split('\n').next().map_or(true, is_blank)
+                && !value.split('\n').next_back().map_or(true, is_blank)
+                && value
+                    .split('\n')
+                    .any(|line| !is_blank(line) && !line.starts_with([' ', '\t'])))
+    }
 }
 
 impl<'a> Display for BlockStringValuePrinter<'a> {
     fn fmt(&self, f: &mut Formatter<'_>) -> Result {
         let Self { value, indentation } = *self;
         write_indent(f, indentation)?;
+
+        if !Self::is_representable(value) {
+            return writeln!(f, "{}", StringValuePrinter::new(value));
+        }
+
         writeln!(f, "\"\"\"")?;
 
         let escaped = value.replace("\"\"\"", "\\\"\"\"");
-- 
2.43.0


From 953f157e9a1a93a403cd2cd3b2e627bd1399796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:35 +0000
Subject: [PATCH 15/42] fix: print the schema definition when a type has the
 name of a root operation it does not have

---
 bluejay-printer/src/definition/schema_definition.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bluejay-printer/src/definition/schema_definition.rs b/bluejay-printer/src/definition/schema_definition.rs
index 570fdfd..aa0a753 100644
--- a/bluejay-printer/src/definition/schema_definition.rs
+++ b/bluejay-printer/src/definition/schema_definition.rs
@@ -36,11 +36,15 @@ impl<'a, S: SchemaDefinition> SchemaDefinitionPrinter<'a, S> {
             && schema_definition
                 .mutation()
                 .map(|mutation| mutation.name() == "Mutation")
-                .unwrap_or(true)
+                .unwrap_or_else(|| schema_definition.get_type_definition("Mutation").is_none())
             && schema_definition
                 .subscription()
                 .map(|subscription| subscription.name() == "Subscription")
-                .unwrap_or(true)
+                .unwrap_or_else(|| {
+                    schema_definition
+                        .get_type_definition("Subscription")
+                        .is_none()
+                })
             && schema_definition
                 .directives()
                 .map(AsIter::is_empty)
-- 
2.43.0


From f402ff35151cbc19297ef9ca3a1db5c198137699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:56 +0000
Subject: [PATCH 16/42] fix: report unknown directives on the schema definition

---
 .../src/ast/definition/definition_document.rs         | 11 +++++++++++
 .../src/ast/definition/explicit_schema_definition.rs  | 10 +++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/bluejay-parser/src/ast/definition/definition_document.rs b/bluejay-parser/src/ast/definition/definition_document.rs
index ae337c0..b90fdc7 100644
--- a/bluejay-parser/src/ast/definition/definition_document.rs
+++ b/bluejay-parser/src/ast/definition/definition_document.rs
@@ -716,6 +716,17 @@ impl<'a, C: Context> TryFrom<&'a DefinitionDocument<'a, C>> for SchemaDefinition
             &mut errors,
         );
 
+        definition_document
+            .schema_definitions
+            .iter()
+            .for_each(|schema_definition| {
+                DefinitionDocument::resolve_directive_definitions(
+                    &indexed_directive_definitions,
+                    schema_definition,
+                    &mut errors,
+                )
+            });
+
         if !errors.is_empty() {
             return Err(errors);
         }
diff --git a/bluejay-parser/src/ast/definition/explicit_schema_definition.rs b/bluejay-parser/src/ast/definition/explicit_schema_definition.rs
index 0b59a90..55cfe6d 100644
--- a/bluejay-parser/src/ast/definition/explicit_schema_definition.rs
+++ b/bluejay-parser/src/ast/definition/explicit_schema_definition.rs
@@ -4,7 +4,7 @@ use crate::ast::{
 };
 use crate::lexical_token::{Name, PunctuatorType, StringValue};
 use crate::Span;
-use bluejay_core::OperationType;
+use bluejay_core::{definition::HasDirectives, OperationType};
 use std::str::FromStr;
 
 #[derive(Debug)]
@@ -40,6 +40,14 @@ impl<'a, C: Context> ExplicitSchemaDefinition<'a, C> {
     }
 }
 
+impl<'a, C: Context> HasDirectives for ExplicitSchemaDefinition<'a, C> {
+    type Directives = Directives<'a, C>;
+
+    fn directives(&self) -> Option<&Self::Directives> {
+        self.directives.as_ref()
+    }
+}
+
 impl<'a, C: Context> FromTokens<'a> for ExplicitSchemaDefinition<'a, C> {
     fn from_tokens(tokens: &mut impl Tokens<'a>) -> Result<Self, ParseError> {
         let description = tokens.next_if_string_value();
-- 
2.43.0


From 1374309f782af7dfbf34ad8dae1ee7428a4c7503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:01 +0000
Subject: [PATCH 17/42] fix: add the introspection fields to the query root
 only

---
 bluejay-parser/src/ast/definition/definition_document.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bluejay-parser/src/ast/definition/definition_document.rs b/bluejay-parser/src/ast/definition/definition_document.rs
index b90fdc7..8dd9a8d 100644
--- a/bluejay-parser/src/ast/definition/definition_document.rs
+++ b/bluejay-parser/src/ast/definition/definition_document.rs
@@ -222,6 +222,7 @@ impl<'a, C: Context> DefinitionDocument<'a, C> {
     }
 
     fn add_query_root_fields(&mut self) {
+        let implicit = self.schema_definitions.is_empty();
         let explicit_query_roots: HashSet<&str> = HashSet::from_iter(
             self.schema_definitions
                 .iter()
@@ -239,7 +240,7 @@ impl<'a, C: Context> DefinitionDocument<'a, C> {
             .for_each(|type_definition| {
                 if let TypeDefinition::Object(otd) = type_definition {
                     let name = otd.name().as_ref();
-                    if name == "Query" || explicit_query_roots.contains(name) {
+                    if (implicit && name == "Query") || explicit_query_roots.contains(name) {
                         otd.add_query_root_fields();
                     }
                 }
-- 
2.43.0


From 294f8fcbc62daded1890e193f77f7ac2e5cb79f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:05 +0000
Subject: [PATCH 18/42] fix: do not drop errors that have no annotations

---
 bluejay-parser/src/error.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bluejay-parser/src/error.rs b/bluejay-parser/src/error.rs
index 265e6b3..190ca7d 100644
--- a/bluejay-parser/src/error.rs
+++ b/bluejay-parser/src/error.rs
@@ -64,6 +64,11 @@ impl Error {
                         message: primary_annotation.message,
                         locations: vec![Location { line, col }],
                     }))
+                } else if err.secondary_annotations.is_empty() {
+                    Either::Left(std::iter::once(GraphQLError {
+                        message: err.message,
+                        locations: Vec::new(),
+                    }))
                 } else {
                     Either::Right(err.secondary_annotations.into_iter().map(
                         |secondary_annotation| {
-- 
2.43.0


From 2bec0460d3938cdef51013083d25531f4360dae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:11 +0000
Subject: [PATCH 19/42] fix: locate errors by the line terminators of GraphQL,
 at the end of the document too

---
 bluejay-parser/src/error/format_errors.rs | 32 ++++++++++++++++-------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/bluejay-parser/src/error/format_errors.rs b/bluejay-parser/src/error/format_errors.rs
index 3278f54..d8caea6 100644
--- a/bluejay-parser/src/error/format_errors.rs
+++ b/bluejay-parser/src/error/format_errors.rs
@@ -1,5 +1,3 @@
-use ariadne::Source;
-
 struct Index {
     byte: usize,
     char: usize,
@@ -46,23 +44,39 @@ impl<'a> ByteIndexToCharIndex<'a> {
 
 pub struct SpanToLocation<'a> {
     byte_idx_to_char_idx: ByteIndexToCharIndex<'a>,
-    source: Source<&'a str>,
+    /// The byte index at which each line starts.
+    line_starts: Vec<usize>,
 }
 
 impl<'a> SpanToLocation<'a> {
     pub fn new(s: &'a str) -> Self {
+        let bytes = s.as_bytes();
+        let mut line_starts = vec![0];
+        // https://spec.graphql.org/draft/#LineTerminator
+        line_starts.extend(
+            bytes
+                .iter()
+                .enumerate()
+                .filter(|&(idx, byte)| match byte {
+                    b'\n' => true,
+                    b'\r' => bytes.get(idx + 1) != Some(&b'\n'),
+                    _ => false,
+                })
+                .map(|(idx, _)| idx + 1),
+        );
         Self {
             byte_idx_to_char_idx: ByteIndexToCharIndex::new(s),
-            source: Source::from(s),
+            line_starts,
         }
     }
 
     pub fn convert(&mut self, span: &crate::Span) -> Option<(usize, usize)> {
-        let span = span.byte_range();
-        let start = self.byte_idx_to_char_idx.convert(span.start);
-        self.source
-            .get_offset_line(start)
-            .map(|(_, line, col)| (line + 1, col + 1))
+        let start = span.byte_range().start;
+        let line = self.line_starts.partition_point(|&idx| idx <= start);
+        let line_start = *self.line_starts.get(line.checked_sub(1)?)?;
+        let col = self.byte_idx_to_char_idx.convert(start)
+            - self.byte_idx_to_char_idx.convert(line_start);
+        Some((line, col + 1))
     }
 }
 
-- 
2.43.0


From 6ce9629bc112730e36549f43c0ac8a34df26fa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:49 +0000
Subject: [PATCH 20/42] fix: list an object that repeats an interface once
 among its implementors

---
 bluejay-parser/src/ast/definition/schema_definition.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bluejay-parser/src/ast/definition/schema_definition.rs b/bluejay-parser/src/ast/definition/schema_definition.rs
index 1f7f0f4..9c9f1e1 100644
--- a/bluejay-parser/src/ast/definition/schema_definition.rs
+++ b/bluejay-parser/src/ast/definition/schema_definition.rs
@@ -62,10 +62,12 @@ impl<'a, C: Context> SchemaDefinition<'a, C> {
                             .iter()
                             .for_each(|interface_implementation| {
                                 let itd_name = interface_implementation.name();
-                                interface_implementors
-                                    .entry(itd_name)
-                                    .or_default()
-                                    .push(otd);
+                                let implementors: &mut Vec<_> =
+                                    interface_implementors.entry(itd_name).or_default();
+                                // an object that repeats an interface still implements it once
+                                if !implementors.last().is_some_and(|&o| std::ptr::eq(o, otd)) {
+                                    implementors.push(otd);
+                                }
                             });
                     }
                 }
-- 
2.43.0


From 3d56aabea192e465bfdb36a30819c811e2070934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:26 +0000
Subject: [PATCH 21/42] fix: report a built-in scalar redefined as another kind
 at its definition

The built-in definitions that use the scalar were checked against the
redefinition, and the errors carried spans of the built-in text: converting
them panicked or pointed anywhere in the user's document.
---
 .../src/ast/definition/definition_document.rs | 19 ++++++++++++++++++-
 .../definition_document_error.rs              | 15 +++++++++++++++
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/bluejay-parser/src/ast/definition/definition_document.rs b/bluejay-parser/src/ast/definition/definition_document.rs
index 8dd9a8d..76a21d9 100644
--- a/bluejay-parser/src/ast/definition/definition_document.rs
+++ b/bluejay-parser/src/ast/definition/definition_document.rs
@@ -328,6 +328,17 @@ impl<'a, C: Context> DefinitionDocument<'a, C> {
             DefinitionDocumentError::DuplicateTypeDefinitions { name, definitions }
         }));
 
+        errors.extend(BuiltinScalarDefinition::iter().filter_map(|bstd| {
+            match indexed.get(bstd.name()) {
+                Some(TypeDefinition::BuiltinScalar(_) | TypeDefinition::CustomScalar(_)) | None => {
+                    None
+                }
+                Some(definition) => Some(
+                    DefinitionDocumentError::BuiltinScalarRedefinedAsNonScalar { definition },
+                ),
+            }
+        }));
+
         indexed
     }
 
@@ -492,8 +503,10 @@ impl<'a, C: Context> DefinitionDocument<'a, C> {
         indexed_directive_definitions: &BTreeMap<&str, &'a DirectiveDefinition<'a, C>>,
         errors: &mut Vec<DefinitionDocumentError<'a, C>>,
     ) {
+        // builtin definitions only refer to other builtin definitions
         indexed_type_definitions
             .values()
+            .filter(|type_definition| !type_definition.as_ref().is_builtin())
             .for_each(|type_definition| match type_definition {
                 TypeDefinition::Object(otd) => {
                     Self::resolve_fields_definition_types_and_directives(
@@ -583,6 +596,7 @@ impl<'a, C: Context> DefinitionDocument<'a, C> {
 
         indexed_directive_definitions
             .values()
+            .filter(|directive_definition| !directive_definition.is_builtin())
             .for_each(|directive_definition| {
                 if let Some(arguments_definition) = directive_definition.arguments_definition() {
                     Self::resolve_input_types_and_directives(
@@ -601,7 +615,10 @@ impl<'a, C: Context> DefinitionDocument<'a, C> {
         fields_definition: &'a FieldsDefinition<'a, C>,
         errors: &mut Vec<DefinitionDocumentError<'a, C>>,
     ) {
-        fields_definition.iter().for_each(|field_definition| {
+        let fields = fields_definition
+            .iter()
+            .filter(|field_definition| !field_definition.is_builtin());
+        fields.for_each(|field_definition| {
             let t = field_definition.r#type().base();
             match indexed_type_definitions.get(t.name().as_ref()) {
                 Some(&td) => match BaseOutputType::core_type_from_type_definition(td) {
diff --git a/bluejay-parser/src/ast/definition/definition_document/definition_document_error.rs b/bluejay-parser/src/ast/definition/definition_document/definition_document_error.rs
index b8f8f34..3e48a14 100644
--- a/bluejay-parser/src/ast/definition/definition_document/definition_document_error.rs
+++ b/bluejay-parser/src/ast/definition/definition_document/definition_document_error.rs
@@ -20,6 +20,9 @@ pub enum DefinitionDocumentError<'a, C: Context> {
         name: &'a str,
         definitions: Vec<&'a TypeDefinition<'a, C>>,
     },
+    BuiltinScalarRedefinedAsNonScalar {
+        definition: &'a TypeDefinition<'a, C>,
+    },
     ImplicitRootOperationTypeNotAnObject {
         definition: &'a TypeDefinition<'a, C>,
     },
@@ -146,6 +149,18 @@ impl<'a, C: Context> From<DefinitionDocumentError<'a, C>> for Error {
                         .collect(),
                 )
             }
+            DefinitionDocumentError::BuiltinScalarRedefinedAsNonScalar { definition } => {
+                Error::new(
+                    format!(
+                        "Cannot redefine builtin scalar {} as a type that is not a scalar",
+                        definition.as_ref().name()
+                    ),
+                    definition.name_token().map(|name| {
+                        Annotation::new("Not a scalar type definition", name.span().clone())
+                    }),
+                    Vec::new(),
+                )
+            }
             DefinitionDocumentError::ExplicitRootOperationTypeDoesNotExist {
                 root_operation_type_definition,
             } => Error::new(
-- 
2.43.0


From 8dac0c918298e50daf2196f6b9e1bf8ee0a854db Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:51:15 +0000
Subject: [PATCH 22/42] fix: report the removal of all arguments of an applied
 directive

---
 bluejay-schema-comparator/src/diff/directive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bluejay-schema-comparator/src/diff/directive.rs b/bluejay-schema-comparator/src/diff/directive.rs
index d17bda3..1bedf3c 100644
--- a/bluejay-schema-comparator/src/diff/directive.rs
+++ b/bluejay-schema-comparator/src/diff/directive.rs
@@ -91,7 +91,7 @@ impl<'a, S: SchemaDefinition + 'a> DirectiveDiff<'a, S> {
             .into_iter()
             .flatten()
             .filter(|old_arg| {
-                self.new_directive.arguments().map_or(false, |args| {
+                self.new_directive.arguments().map_or(true, |args| {
                     !args.iter().any(|new_arg| old_arg.name() == new_arg.name())
                 })
             })
-- 
2.43.0


From cb09d8bce97a50e09652c51c7466aaa879269701 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:51:15 +0000
Subject: [PATCH 23/42] fix: report the first added and last removed arguments
 of a directive definition

---
 bluejay-schema-comparator/src/diff/directive_definition.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bluejay-schema-comparator/src/diff/directive_definition.rs b/bluejay-schema-comparator/src/diff/directive_definition.rs
index c99d6ff..e96562b 100644
--- a/bluejay-schema-comparator/src/diff/directive_definition.rs
+++ b/bluejay-schema-comparator/src/diff/directive_definition.rs
@@ -126,7 +126,7 @@ impl<'a, S: SchemaDefinition + 'a> DirectiveDefinitionDiff<'a, S> {
             .filter(|old_argument| {
                 self.new_directive_definition
                     .arguments_definition()
-                    .map_or(false, |args| {
+                    .map_or(true, |args| {
                         !args
                             .iter()
                             .any(|new_argument| old_argument.name() == new_argument.name())
@@ -143,7 +143,7 @@ impl<'a, S: SchemaDefinition + 'a> DirectiveDefinitionDiff<'a, S> {
             .filter(|new_argument| {
                 self.old_directive_definition
                     .arguments_definition()
-                    .map_or(false, |args| {
+                    .map_or(true, |args| {
                         !args
                             .iter()
                             .any(|old_argument| old_argument.name() == new_argument.name())
-- 
2.43.0


From 15fa98b50a35f61b96c2785c70479df4c6fc55eb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:51:15 +0000
Subject: [PATCH 24/42] fix: compare the directives of input fields rather than
 of their input object

---
 bluejay-schema-comparator/src/diff/input_field.rs       | 7 ++-----
 bluejay-schema-comparator/src/diff/input_object_type.rs | 1 -
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/bluejay-schema-comparator/src/diff/input_field.rs b/bluejay-schema-comparator/src/diff/input_field.rs
index 2e2606a..2d71c03 100644
--- a/bluejay-schema-comparator/src/diff/input_field.rs
+++ b/bluejay-schema-comparator/src/diff/input_field.rs
@@ -7,7 +7,6 @@ use bluejay_core::Value;
 
 pub struct InputFieldDiff<'a, S: SchemaDefinition> {
     old_type_definition: &'a S::InputObjectTypeDefinition,
-    new_type_definition: &'a S::InputObjectTypeDefinition,
     old_field_definition: &'a S::InputValueDefinition,
     new_field_definition: &'a S::InputValueDefinition,
 }
@@ -15,13 +14,11 @@ pub struct InputFieldDiff<'a, S: SchemaDefinition> {
 impl<'a, S: SchemaDefinition + 'a> InputFieldDiff<'a, S> {
     pub fn new(
         old_type_definition: &'a S::InputObjectTypeDefinition,
-        new_type_definition: &'a S::InputObjectTypeDefinition,
         old_field_definition: &'a S::InputValueDefinition,
         new_field_definition: &'a S::InputValueDefinition,
     ) -> Self {
         Self {
             old_type_definition,
-            new_type_definition,
             old_field_definition,
             new_field_definition,
         }
@@ -79,7 +76,7 @@ impl<'a, S: SchemaDefinition + 'a> InputFieldDiff<'a, S> {
         }
 
         changes.extend(
-            directive_additions::<S, _>(self.old_type_definition, self.new_type_definition).map(
+            directive_additions::<S, _>(self.old_field_definition, self.new_field_definition).map(
                 |directive| Change::DirectiveAdded {
                     directive,
                     location: DirectiveLocation::InputFieldDefinition,
@@ -89,7 +86,7 @@ impl<'a, S: SchemaDefinition + 'a> InputFieldDiff<'a, S> {
         );
 
         changes.extend(
-            directive_removals::<S, _>(self.old_type_definition, self.new_type_definition).map(
+            directive_removals::<S, _>(self.old_field_definition, self.new_field_definition).map(
                 |directive| Change::DirectiveRemoved {
                     directive,
                     location: DirectiveLocation::InputFieldDefinition,
diff --git a/bluejay-schema-comparator/src/diff/input_object_type.rs b/bluejay-schema-comparator/src/diff/input_object_type.rs
index 79e5c46..9cad065 100644
--- a/bluejay-schema-comparator/src/diff/input_object_type.rs
+++ b/bluejay-schema-comparator/src/diff/input_object_type.rs
@@ -74,7 +74,6 @@ impl<'a, S: SchemaDefinition + 'a> InputObjectTypeDiff<'a, S> {
                         changes.extend(
                             InputFieldDiff::new(
                                 self.old_type_definition,
-                                self.new_type_definition,
                                 old_field,
                                 new_field,
                             )
-- 
2.43.0


From 1aca4093eed82563c42e48d37903af003c1f7cbd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:52:06 +0000
Subject: [PATCH 25/42] fix: compare the directives of scalar types

---
 bluejay-schema-comparator/src/diff.rs         |  1 +
 .../src/diff/scalar_type.rs                   | 51 +++++++++++++++++++
 bluejay-schema-comparator/src/diff/schema.rs  | 11 ++--
 3 files changed, 59 insertions(+), 4 deletions(-)
 create mode 100644 bluejay-schema-comparator/src/diff/scalar_type.rs

diff --git a/bluejay-schema-comparator/src/diff.rs b/bluejay-schema-comparator/src/diff.rs
index d0b0a34..77d7945 100644
--- a/bluejay-schema-comparator/src/diff.rs
+++ b/bluejay-schema-comparator/src/diff.rs
@@ -9,6 +9,7 @@ mod input_field;
 mod input_object_type;
 mod interface_type;
 mod object_type;
+mod scalar_type;
 mod schema;
 mod union_type;
 
diff --git a/bluejay-schema-comparator/src/diff/scalar_type.rs b/bluejay-schema-comparator/src/diff/scalar_type.rs
new file mode 100644
index 0000000..bfd10df
--- /dev/null
+++ b/bluejay-schema-comparator/src/diff/scalar_type.rs
@@ -0,0 +1,51 @@
+use crate::changes::Change;
+use crate::diff::directive::{common_directive_changes, directive_additions, directive_removals};
+use bluejay_core::definition::{DirectiveLocation, ScalarTypeDefinition, SchemaDefinition};
+
+pub struct ScalarTypeDiff<'a, S: SchemaDefinition> {
+    old_type_definition: &'a S::CustomScalarTypeDefinition,
+    new_type_definition: &'a S::CustomScalarTypeDefinition,
+}
+
+impl<'a, S: SchemaDefinition + 'a> ScalarTypeDiff<'a, S> {
+    pub fn new(
+        old_type_definition: &'a S::CustomScalarTypeDefinition,
+        new_type_definition: &'a S::CustomScalarTypeDefinition,
+    ) -> Self {
+        Self {
+            old_type_definition,
+            new_type_definition,
+        }
+    }
+
+    pub fn diff(&self) -> Vec<Change<'a, S>> {
+        let mut changes = Vec::new();
+
+        changes.extend(
+            directive_additions::<S, _>(self.old_type_definition, self.new_type_definition).map(
+                |directive| Change::DirectiveAdded {
+                    directive,
+                    location: DirectiveLocation::Scalar,
+                    member_name: self.old_type_definition.name(),
+                },
+            ),
+        );
+
+        changes.extend(
+            directive_removals::<S, _>(self.old_type_definition, self.new_type_definition).map(
+                |directive| Change::DirectiveRemoved {
+                    directive,
+                    location: DirectiveLocation::Scalar,
+                    member_name: self.old_type_definition.name(),
+                },
+            ),
+        );
+
+        changes.extend(common_directive_changes(
+            self.old_type_definition,
+            self.new_type_definition,
+        ));
+
+        changes
+    }
+}
diff --git a/bluejay-schema-comparator/src/diff/schema.rs b/bluejay-schema-comparator/src/diff/schema.rs
index df2e272..7bad64b 100644
--- a/bluejay-schema-comparator/src/diff/schema.rs
+++ b/bluejay-schema-comparator/src/diff/schema.rs
@@ -5,6 +5,7 @@ use crate::diff::enum_type::EnumTypeDiff;
 use crate::diff::input_object_type::InputObjectTypeDiff;
 use crate::diff::interface_type::InterfaceTypeDiff;
 use crate::diff::object_type::ObjectTypeDiff;
+use crate::diff::scalar_type::ScalarTypeDiff;
 use crate::diff::union_type::UnionTypeDiff;
 use bluejay_core::definition::{
     DirectiveDefinition as _, DirectiveLocation, SchemaDefinition, TypeDefinitionReference,
@@ -136,11 +137,13 @@ impl<'a, S: SchemaDefinition> SchemaDiff<'a, S> {
             (
                 TypeDefinitionReference::BuiltinScalar(_),
                 TypeDefinitionReference::BuiltinScalar(_),
-            )
-            | (
-                TypeDefinitionReference::CustomScalar(_),
-                TypeDefinitionReference::CustomScalar(_),
             ) => {}
+            (
+                TypeDefinitionReference::CustomScalar(old_type),
+                TypeDefinitionReference::CustomScalar(new_type),
+            ) => {
+                changes.extend(ScalarTypeDiff::new(old_type, new_type).diff());
+            }
             _ => {
                 changes.push(Change::TypeKindChanged {
                     old_type_definition: old_type,
-- 
2.43.0


From 89012f3062ecc09568353a6ea17424ae1a1a43ff Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:52:06 +0000
Subject: [PATCH 26/42] fix: report changed arguments of directives applied to
 the schema

---
 bluejay-schema-comparator/src/diff/schema.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bluejay-schema-comparator/src/diff/schema.rs b/bluejay-schema-comparator/src/diff/schema.rs
index 7bad64b..95ba499 100644
--- a/bluejay-schema-comparator/src/diff/schema.rs
+++ b/bluejay-schema-comparator/src/diff/schema.rs
@@ -1,5 +1,5 @@
 use crate::changes::Change;
-use crate::diff::directive::{directive_additions, directive_removals};
+use crate::diff::directive::{common_directive_changes, directive_additions, directive_removals};
 use crate::diff::directive_definition::DirectiveDefinitionDiff;
 use crate::diff::enum_type::EnumTypeDiff;
 use crate::diff::input_object_type::InputObjectTypeDiff;
@@ -83,6 +83,11 @@ impl<'a, S: SchemaDefinition> SchemaDiff<'a, S> {
                 }),
         );
 
+        changes.extend(common_directive_changes(
+            self.old_schema_definition,
+            self.new_schema_definition,
+        ));
+
         self.old_schema_definition
             .directive_definitions()
             .for_each(|old_directive| {
-- 
2.43.0


From 2002e822cbc78e449ba5d1c7517496c9fd37c8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:52:06 +0000
Subject: [PATCH 27/42] fix: compare the directives applied to the arguments of
 directive definitions

---
 .../src/diff/directive_definition_argument.rs | 28 ++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/bluejay-schema-comparator/src/diff/directive_definition_argument.rs b/bluejay-schema-comparator/src/diff/directive_definition_argument.rs
index d60e75c..95edd03 100644
--- a/bluejay-schema-comparator/src/diff/directive_definition_argument.rs
+++ b/bluejay-schema-comparator/src/diff/directive_definition_argument.rs
@@ -1,5 +1,8 @@
 use crate::changes::Change;
-use bluejay_core::definition::{InputType, InputValueDefinition, SchemaDefinition};
+use crate::diff::directive::{common_directive_changes, directive_additions, directive_removals};
+use bluejay_core::definition::{
+    DirectiveLocation, InputType, InputValueDefinition, SchemaDefinition,
+};
 use bluejay_core::Value;
 
 pub struct DirectiveDefinitionArgumentDiff<'a, S: SchemaDefinition> {
@@ -66,6 +69,29 @@ impl<'a, S: SchemaDefinition + 'a> DirectiveDefinitionArgumentDiff<'a, S> {
             _ => {}
         }
 
+        changes.extend(
+            directive_additions::<S, _>(self.old_argument_definition, self.new_argument_definition)
+                .map(|directive| Change::DirectiveAdded {
+                    directive,
+                    location: DirectiveLocation::ArgumentDefinition,
+                    member_name: self.old_argument_definition.name(),
+                }),
+        );
+
+        changes.extend(
+            directive_removals::<S, _>(self.old_argument_definition, self.new_argument_definition)
+                .map(|directive| Change::DirectiveRemoved {
+                    directive,
+                    location: DirectiveLocation::ArgumentDefinition,
+                    member_name: self.old_argument_definition.name(),
+                }),
+        );
+
+        changes.extend(common_directive_changes(
+            self.old_argument_definition,
+            self.new_argument_definition,
+        ));
+
         changes
     }
 }
-- 
2.43.0


From b9bfb8aa600c490db16c225d911ab034c946d96a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:52:06 +0000
Subject: [PATCH 28/42] fix: pair up repeated directives in order when
 comparing

---
 .../src/diff/directive.rs                     | 86 +++++++++++--------
 1 file changed, 52 insertions(+), 34 deletions(-)

diff --git a/bluejay-schema-comparator/src/diff/directive.rs b/bluejay-schema-comparator/src/diff/directive.rs
index 1bedf3c..adf2ba8 100644
--- a/bluejay-schema-comparator/src/diff/directive.rs
+++ b/bluejay-schema-comparator/src/diff/directive.rs
@@ -1,6 +1,7 @@
 use crate::changes::Change;
 use bluejay_core::definition::{HasDirectives, SchemaDefinition};
 use bluejay_core::{Argument, Arguments, AsIter, Directive, Value};
+use std::collections::HashMap;
 
 pub type ArgumentForDirective<S> =
     <<<S as SchemaDefinition>::Directive as Directive<true>>::Arguments as Arguments<
@@ -98,48 +99,74 @@ impl<'a, S: SchemaDefinition + 'a> DirectiveDiff<'a, S> {
     }
 }
 
-pub fn directive_additions<
+/// The directives of a member, each with the number of directives of the same name before it:
+/// repeated directives are paired up in order.
+fn numbered_directives<
     'a,
     S: SchemaDefinition + 'a,
     T: HasDirectives<Directives = <S as SchemaDefinition>::Directives>,
 >(
-    old_member: &'a T,
-    new_member: &'a T,
-) -> impl Iterator<Item = &'a <S as SchemaDefinition>::Directive> {
-    new_member
+    member: &'a T,
+) -> impl Iterator<Item = (usize, &'a <S as SchemaDefinition>::Directive)> {
+    member
         .directives()
         .map(|ii| ii.iter())
         .into_iter()
         .flatten()
-        .filter(|new_directive| {
-            old_member.directives().map_or(true, |directives| {
-                !directives
-                    .iter()
-                    .any(|old_directive| old_directive.name() == new_directive.name())
-            })
+        .scan(HashMap::new(), |counts, directive| {
+            let count = counts.entry(directive.name()).or_insert(0);
+            let index = *count;
+            *count += 1;
+            Some((index, directive))
         })
 }
 
-pub fn directive_removals<
+fn find_directive<
     'a,
     S: SchemaDefinition + 'a,
     T: HasDirectives<Directives = <S as SchemaDefinition>::Directives>,
 >(
-    old_member: &'a T,
-    new_member: &'a T,
-) -> impl Iterator<Item = &'a <S as SchemaDefinition>::Directive> {
-    old_member
+    member: &'a T,
+    index: usize,
+    name: &str,
+) -> Option<&'a <S as SchemaDefinition>::Directive> {
+    member
         .directives()
         .map(|ii| ii.iter())
         .into_iter()
         .flatten()
-        .filter(|old_directive| {
-            new_member.directives().map_or(true, |directives| {
-                !directives
-                    .iter()
-                    .any(|new_directive| old_directive.name() == new_directive.name())
-            })
+        .filter(|directive| directive.name() == name)
+        .nth(index)
+}
+
+pub fn directive_additions<
+    'a,
+    S: SchemaDefinition + 'a,
+    T: HasDirectives<Directives = <S as SchemaDefinition>::Directives>,
+>(
+    old_member: &'a T,
+    new_member: &'a T,
+) -> impl Iterator<Item = &'a <S as SchemaDefinition>::Directive> {
+    numbered_directives::<S, T>(new_member)
+        .filter(|(index, new_directive)| {
+            find_directive::<S, T>(old_member, *index, new_directive.name()).is_none()
         })
+        .map(|(_, new_directive)| new_directive)
+}
+
+pub fn directive_removals<
+    'a,
+    S: SchemaDefinition + 'a,
+    T: HasDirectives<Directives = <S as SchemaDefinition>::Directives>,
+>(
+    old_member: &'a T,
+    new_member: &'a T,
+) -> impl Iterator<Item = &'a <S as SchemaDefinition>::Directive> {
+    numbered_directives::<S, T>(old_member)
+        .filter(|(index, old_directive)| {
+            find_directive::<S, T>(new_member, *index, old_directive.name()).is_none()
+        })
+        .map(|(_, old_directive)| old_directive)
 }
 
 pub fn common_directive_changes<
@@ -150,18 +177,9 @@ pub fn common_directive_changes<
     old_member: &'a T,
     new_member: &'a T,
 ) -> impl Iterator<Item = Change<'a, S>> {
-    old_member
-        .directives()
-        .map(|ii| ii.iter())
-        .into_iter()
-        .flatten()
-        .filter_map(move |old_directive| {
-            new_member
-                .directives()
-                .map(|ii| ii.iter())
-                .into_iter()
-                .flatten()
-                .find(|new_directive| old_directive.name() == new_directive.name())
+    numbered_directives::<S, T>(old_member)
+        .filter_map(move |(index, old_directive)| {
+            find_directive::<S, T>(new_member, index, old_directive.name())
                 .map(|new_directive| DirectiveDiff::new(old_directive, new_directive).diff())
         })
         .flat_map(|changes| changes.into_iter())
-- 
2.43.0


From 24c7de9531e7b9d195475c95dd8ec74d1c337f24 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:52:06 +0000
Subject: [PATCH 29/42] fix: removing the default of a required argument or
 input field is breaking

---
 bluejay-schema-comparator/src/changes.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/bluejay-schema-comparator/src/changes.rs b/bluejay-schema-comparator/src/changes.rs
index bcb0507..c2effa0 100644
--- a/bluejay-schema-comparator/src/changes.rs
+++ b/bluejay-schema-comparator/src/changes.rs
@@ -292,6 +292,11 @@ impl<'a, S: SchemaDefinition> Change<'a, S> {
             Self::FieldArgumentDescriptionChanged { .. } => {
                 Criticality::safe(None)
             },
+            Self::FieldArgumentDefaultValueChanged { type_name: _, field_definition: _, old_argument_definition: old_argument, new_argument_definition: new_argument }
+                if is_default_removed_from_required::<S>(old_argument, new_argument) =>
+            {
+                Criticality::breaking(Some(Cow::from("Removing the default value of a required argument is a breaking change because it will cause existing uses of this field that do not provide it to error.")))
+            },
             Self::FieldArgumentDefaultValueChanged { .. } => {
                 Criticality::dangerous(Some(Cow::from("Changing the default value for an argument may change the runtime behaviour of a field if it was never provided.")))
             },
@@ -343,6 +348,11 @@ impl<'a, S: SchemaDefinition> Change<'a, S> {
             Self::InputFieldDescriptionChanged { .. } => {
                 Criticality::safe(None)
             },
+            Self::InputFieldDefaultValueChanged { input_object_type_definition: _, old_field_definition: old_field, new_field_definition: new_field }
+                if is_default_removed_from_required::<S>(old_field, new_field) =>
+            {
+                Criticality::breaking(Some(Cow::from("Removing the default value of a non-null input field is a breaking change because it will cause existing queries that do not provide a value for this field to error.")))
+            },
             Self::InputFieldDefaultValueChanged { .. } => {
                 Criticality::dangerous(Some(Cow::from("Changing the default value for an argument may change the runtime behaviour of a field if it was never provided.")))
             },
@@ -381,6 +391,11 @@ impl<'a, S: SchemaDefinition> Change<'a, S> {
                     Criticality::breaking(None)
                 }
             },
+            Self::DirectiveDefinitionArgumentDefaultValueChanged { directive_definition: _, old_argument_definition, new_argument_definition }
+                if is_default_removed_from_required::<S>(old_argument_definition, new_argument_definition) =>
+            {
+                Criticality::breaking(None)
+            },
             Self::DirectiveDefinitionArgumentDefaultValueChanged { .. } => {
                 Criticality::dangerous(Some(Cow::from("Changing the default value for an argument may change the runtime behaviour of a field if it was never provided.")))
             },
@@ -1183,6 +1198,13 @@ fn is_change_safe_for_input_value<S: SchemaDefinition>(
     }
 }
 
+fn is_default_removed_from_required<S: SchemaDefinition>(
+    old_input_value: &S::InputValueDefinition,
+    new_input_value: &S::InputValueDefinition,
+) -> bool {
+    old_input_value.default_value().is_some() && new_input_value.is_required()
+}
+
 fn directive_location_name(location: &DirectiveLocation) -> &'static str {
     match location {
         DirectiveLocation::ArgumentDefinition => "argument",
-- 
2.43.0


From 5671fa7273f69fae346fc7d560e5d6463586bad8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:52:06 +0000
Subject: [PATCH 30/42] fix: making an input object @oneOf is breaking

---
 bluejay-schema-comparator/src/changes.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bluejay-schema-comparator/src/changes.rs b/bluejay-schema-comparator/src/changes.rs
index c2effa0..c99423f 100644
--- a/bluejay-schema-comparator/src/changes.rs
+++ b/bluejay-schema-comparator/src/changes.rs
@@ -399,6 +399,9 @@ impl<'a, S: SchemaDefinition> Change<'a, S> {
             Self::DirectiveDefinitionArgumentDefaultValueChanged { .. } => {
                 Criticality::dangerous(Some(Cow::from("Changing the default value for an argument may change the runtime behaviour of a field if it was never provided.")))
             },
+            Self::DirectiveAdded { location: DirectiveLocation::InputObject, member_name: _, directive } if directive.name() == "oneOf" => {
+                Criticality::breaking(Some(Cow::from("Making an input type a oneOf input object will cause existing queries that do not provide exactly one non-null value for it to error.")))
+            },
             Self::DirectiveAdded { .. } => {
                 Criticality::safe(None)
             },
-- 
2.43.0


From dad9f838b0aa41069b490cce2383b9e597f60458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:54 +0000
Subject: [PATCH 31/42] fix: list the right field when field names repeat in a
 filtered view

---
 bluejay-visibility/src/fields_definition.rs | 27 +++++++++------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/bluejay-visibility/src/fields_definition.rs b/bluejay-visibility/src/fields_definition.rs
index 0bb86f9..078d4c8 100644
--- a/bluejay-visibility/src/fields_definition.rs
+++ b/bluejay-visibility/src/fields_definition.rs
@@ -37,21 +37,18 @@ impl<'a, S: SchemaDefinition + 'a, W: Warden<SchemaDefinition = S>> AsIter
                 self.inner
                     .iter()
                     .filter(|fd| self.cache.warden().is_field_definition_visible(fd))
-                    .filter_map(|fd| {
-                        self.indexed_fields_definition
-                            .get(fd.name())
-                            .or_else(|| {
-                                let scoped_fd = FieldDefinition::new(fd, self.cache).map(Rc::new);
-                                if let Some(scoped_fd) = scoped_fd {
-                                    Some(
-                                        self.indexed_fields_definition
-                                            .insert(fd.name(), Box::new(scoped_fd)),
-                                    )
-                                } else {
-                                    None
-                                }
-                            })
-                            .cloned()
+                    .filter_map(|fd| match self.indexed_fields_definition.get(fd.name()) {
+                        Some(scoped_fd) if std::ptr::eq(scoped_fd.inner(), fd) => {
+                            Some(Rc::clone(scoped_fd))
+                        }
+                        indexed_fd => {
+                            let scoped_fd = Rc::new(FieldDefinition::new(fd, self.cache)?);
+                            if indexed_fd.is_none() {
+                                self.indexed_fields_definition
+                                    .insert(fd.name(), Box::new(Rc::clone(&scoped_fd)));
+                            }
+                            Some(scoped_fd)
+                        }
                     })
                     .collect()
             })
-- 
2.43.0


From c53fc069fa0d65af66da062a6b1f14903ee77c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:17 +0000
Subject: [PATCH 32/42] fix: list the definitions of directives applied to the
 schema in a filtered view

---
 bluejay-visibility/src/schema_definition.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bluejay-visibility/src/schema_definition.rs b/bluejay-visibility/src/schema_definition.rs
index a937691..d783aaf 100644
--- a/bluejay-visibility/src/schema_definition.rs
+++ b/bluejay-visibility/src/schema_definition.rs
@@ -291,6 +291,8 @@ impl<'a, 'b, S: definition::SchemaDefinition, W: Warden<SchemaDefinition = S>>
                 }
             });
 
+        instance.visit_directives(schema_definition.directives.as_ref());
+
         instance.visit_type_definition(TypeDefinitionReference::Object(schema_definition.query));
 
         if let Some(mutation) = schema_definition.mutation {
@@ -407,7 +409,7 @@ impl<'a, 'b, S: definition::SchemaDefinition, W: Warden<SchemaDefinition = S>>
             })
     }
 
-    fn visit_directives(&mut self, directives: Option<&'a Directives<'a, S, W>>) {
+    fn visit_directives(&mut self, directives: Option<&Directives<'a, S, W>>) {
         if let Some(directives) = directives {
             directives.iter().for_each(|directive| {
                 // if this is `None` it means that the schema is invalid, but that is not the responsibility of this visitor
-- 
2.43.0


From 91883695223797c9e07e9b5ae77a85b392ffa635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:07 +0000
Subject: [PATCH 33/42] fix: look for a fragment cycle once per fragment rather
 than along every path

Every path between fragments was followed separately, so a document with
ten fragments that spread each other took minutes to validate.
---
 .../rules/fragment_spreads_must_not_form_cycles.rs     | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/bluejay-validator/src/executable/document/rules/fragment_spreads_must_not_form_cycles.rs b/bluejay-validator/src/executable/document/rules/fragment_spreads_must_not_form_cycles.rs
index c174667..965584d 100644
--- a/bluejay-validator/src/executable/document/rules/fragment_spreads_must_not_form_cycles.rs
+++ b/bluejay-validator/src/executable/document/rules/fragment_spreads_must_not_form_cycles.rs
@@ -22,14 +22,12 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> FragmentSpreadsMustNotFormC
         >,
         target: &'a E::FragmentDefinition,
         fragment_definition_name: &'a str,
-        visited_fragment_definitions: &HashSet<&'a str>,
+        visited_fragment_definitions: &mut HashSet<&'a str>,
     ) -> Option<Error<'a, E, S>> {
-        if visited_fragment_definitions.contains(fragment_definition_name) {
+        if !visited_fragment_definitions.insert(fragment_definition_name) {
             return None;
         }
         if let Some((_, spreads)) = spreads_by_fragment_definition.get(fragment_definition_name) {
-            let mut visited_fragment_definitions = visited_fragment_definitions.clone();
-            visited_fragment_definitions.insert(fragment_definition_name);
             spreads.iter().find_map(|&spread| {
                 if spread.name() == target.name() {
                     Some(Error::FragmentSpreadCycle {
@@ -41,7 +39,7 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> FragmentSpreadsMustNotFormC
                         spreads_by_fragment_definition,
                         target,
                         spread.name(),
-                        &visited_fragment_definitions,
+                        visited_fragment_definitions,
                     )
                 }
             })
@@ -76,7 +74,7 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> Visitor<'a, E, S>
                     &spreads_by_fragment_definition,
                     target,
                     fragment_definition_name,
-                    &HashSet::new(),
+                    &mut HashSet::new(),
                 )
             })
             .collect();
-- 
2.43.0


From 0f65f586bd5a6c3f79b7e0ccaf6eeed6223800ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:53 +0000
Subject: [PATCH 34/42] fix: collect the fields of a fragment once when
 checking that fields merge

A fragment spread several times had its fields collected, and compared
with each other, once per path that leads to it, so a chain of fragments
that each spread the next one twice took exponential time to validate.
---
 .../document/rules/field_selection_merging.rs          | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
index d0569df..d4a416a 100644
--- a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
+++ b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
@@ -233,6 +233,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
             &mut fields,
             parent_type,
             &HashSet::new(),
+            &mut HashSet::new(),
         );
         fields
     }
@@ -245,6 +246,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
         'a: 'b,
     {
         let mut fields = HashMap::new();
+        let mut spread_fragments = HashSet::new();
         field_contexts.for_each(|field_context| {
             if let Some(selection_set) = field_context.field.selection_set() {
                 if let Some(parent_type) = self
@@ -257,6 +259,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
                             &mut fields,
                             parent_type,
                             &field_context.parent_fragments,
+                            &mut spread_fragments,
                         );
                     }
                 }
@@ -271,6 +274,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
         fields: &mut HashMap<&'a str, Vec<FieldContext<'a, E, S>>>,
         parent_type: TypeDefinitionReference<'a, S::TypeDefinition>,
         parent_fragments: &HashSet<&'a str>,
+        spread_fragments: &mut HashSet<&'a str>,
     ) {
         selections.for_each(|selection| match selection.as_ref() {
             SelectionReference::Field(field) => {
@@ -291,7 +295,9 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
             }
             SelectionReference::FragmentSpread(fs) => {
                 let fragment_name = fs.name();
-                if !parent_fragments.contains(fragment_name) {
+                if !parent_fragments.contains(fragment_name)
+                    && spread_fragments.insert(fragment_name)
+                {
                     if let Some(fragment_definition) = self.cache.fragment_definition(fragment_name)
                     {
                         let type_condition = fragment_definition.type_condition();
@@ -310,6 +316,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
                                     fields,
                                     scoped_type,
                                     &new_parent_fragments,
+                                    spread_fragments,
                                 );
                             }
                         }
@@ -330,6 +337,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
                             fields,
                             scoped_type,
                             parent_fragments,
+                            spread_fragments,
                         );
                     }
                 }
-- 
2.43.0


From ddc59022bcac111e3e679b1162bb505034abf04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:55 +0000
Subject: [PATCH 35/42] fix: compare the selection sets of merged fields once
 per selection set

The same selection sets were compared again for every path of response
names that leads to them, doubling the work with each level of fragments.
---
 .../document/rules/field_selection_merging.rs | 36 +++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
index d4a416a..9b60ee8 100644
--- a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
+++ b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
@@ -18,8 +18,17 @@ pub struct FieldSelectionMerging<'a, E: ExecutableDocument, S: SchemaDefinition>
     cache: &'a Cache<'a, E, S>,
     schema_definition: &'a S,
     cached_errors: BTreeMap<Indexed<'a, E::SelectionSet>, Vec<Error<'a, E, S>>>,
+    compared_response_shapes: ComparedSelectionSets<'a, E>,
+    compared_common_parents: ComparedSelectionSets<'a, E>,
 }
 
+/// Groups of selection sets that have been compared with each other, by the
+/// selection set that they are nested in
+type ComparedSelectionSets<'a, E> = HashSet<(
+    Indexed<'a, <E as ExecutableDocument>::SelectionSet>,
+    Vec<Indexed<'a, <E as ExecutableDocument>::SelectionSet>>,
+)>;
+
 impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition> Visitor<'a, E, S>
     for FieldSelectionMerging<'a, E, S>
 {
@@ -28,6 +37,8 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition> Visitor<'a, E, S>
             cache,
             schema_definition,
             cached_errors: BTreeMap::new(),
+            compared_response_shapes: HashSet::new(),
+            compared_common_parents: HashSet::new(),
         }
     }
 
@@ -118,6 +129,13 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
                 errors.is_empty().not().then_some(errors)
             })
             .unwrap_or_else(|| {
+                if !self.compared_response_shapes.insert((
+                    Indexed(selection_set),
+                    Self::nested_selection_sets(fields_for_name.iter()),
+                )) {
+                    return Vec::new();
+                }
+
                 let nested_grouped_fields =
                     self.field_contexts_contained_fields(fields_for_name.iter());
 
@@ -204,6 +222,13 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
                         errors.is_empty().not().then_some(errors)
                     })
                     .unwrap_or_else(|| {
+                        if !self.compared_common_parents.insert((
+                            Indexed(selection_set),
+                            Self::nested_selection_sets(fields_for_common_parent.iter().copied()),
+                        )) {
+                            return Vec::new();
+                        }
+
                         let nested_grouped_fields = self.field_contexts_contained_fields(
                             fields_for_common_parent.iter().copied(),
                         );
@@ -222,6 +247,17 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
             .collect()
     }
 
+    fn nested_selection_sets<'b>(
+        field_contexts: impl Iterator<Item = &'b FieldContext<'a, E, S>>,
+    ) -> Vec<Indexed<'a, E::SelectionSet>>
+    where
+        'a: 'b,
+    {
+        field_contexts
+            .filter_map(|field_context| field_context.field.selection_set().map(Indexed))
+            .collect()
+    }
+
     fn selection_set_contained_fields(
         &mut self,
         selection_set: &'a E::SelectionSet,
-- 
2.43.0


From eaa26ecb34cc84c0cd25a741f170592421d5bbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:28 +0000
Subject: [PATCH 36/42] fix: generate a type for an operation or fragment
 definition that is a single fragment spread

---
 .../executable_field_builder.rs               |  3 +-
 .../executable_type_builder.rs                | 14 +++++
 .../intermediate_representation.rs            | 51 ++++++++++++++++---
 3 files changed, 61 insertions(+), 7 deletions(-)

diff --git a/bluejay-typegen-macro/src/executable_definition/executable_field_builder.rs b/bluejay-typegen-macro/src/executable_definition/executable_field_builder.rs
index a979225..58710be 100644
--- a/bluejay-typegen-macro/src/executable_definition/executable_field_builder.rs
+++ b/bluejay-typegen-macro/src/executable_definition/executable_field_builder.rs
@@ -110,7 +110,8 @@ impl<'a, S: SchemaDefinition> ExecutableFieldBuilder<'a, S> {
                 ExecutableType::BuiltinScalar { bstd, .. } => {
                     builtin_scalar_type(*bstd, self.config)
                 }
-                ExecutableType::FragmentDefinitionReference { name, borrows } => {
+                ExecutableType::FragmentDefinitionReference { name, borrows }
+                | ExecutableType::FragmentDefinitionAlias { name, borrows, .. } => {
                     let prefix = self.prefix_for_executable_document_module();
                     let type_ident = type_ident(name);
                     let lifetime: Option<syn::Generics> = borrows.then(|| parse_quote! { <'a> });
diff --git a/bluejay-typegen-macro/src/executable_definition/executable_type_builder.rs b/bluejay-typegen-macro/src/executable_definition/executable_type_builder.rs
index 49b55d7..00544b5 100644
--- a/bluejay-typegen-macro/src/executable_definition/executable_type_builder.rs
+++ b/bluejay-typegen-macro/src/executable_definition/executable_type_builder.rs
@@ -1,8 +1,10 @@
 use crate::{
     executable_definition::{ExecutableEnumBuilder, ExecutableStructBuilder, ExecutableType},
+    names::type_ident,
     Config,
 };
 use bluejay_core::definition::SchemaDefinition;
+use syn::parse_quote;
 
 pub(crate) struct ExecutableTypeBuilder;
 
@@ -15,6 +17,18 @@ impl ExecutableTypeBuilder {
         match executable_type {
             ExecutableType::Struct(es) => ExecutableStructBuilder::build(es, config, depth),
             ExecutableType::Enum(ee) => ExecutableEnumBuilder::build(ee, config, depth),
+            ExecutableType::FragmentDefinitionAlias {
+                name,
+                fragment_name,
+                borrows,
+            } => {
+                let name_ident = type_ident(name);
+                let fragment_ident = type_ident(fragment_name);
+                let lifetime: Option<syn::Generics> = borrows.then(|| parse_quote! { <'a> });
+                vec![parse_quote! {
+                    pub type #name_ident #lifetime = #fragment_ident #lifetime;
+                }]
+            }
             ExecutableType::FragmentDefinitionReference { .. }
             | ExecutableType::Leaf { .. }
             | ExecutableType::BuiltinScalar { .. } => Vec::new(),
diff --git a/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs b/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
index e5e9168..1f799d6 100644
--- a/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
+++ b/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
@@ -24,6 +24,15 @@ pub(crate) enum ExecutableType<'a> {
     /// Note: the `borrows` field may incorrectly be false during construction, but
     /// will be updated later
     FragmentDefinitionReference { name: &'a str, borrows: bool },
+    /// An operation or fragment definition with a selection set that contains only a single named fragment spread
+    /// Note: the `borrows` field may incorrectly be false during construction, but
+    /// will be updated later
+    FragmentDefinitionAlias {
+        /// name of the operation or fragment definition
+        name: &'a str,
+        fragment_name: &'a str,
+        borrows: bool,
+    },
     BuiltinScalar {
         bstd: BuiltinScalarDefinition,
         borrows: bool,
@@ -67,7 +76,12 @@ impl<'a> ExecutableType<'a> {
                     });
                 });
             }
-            Self::FragmentDefinitionReference { name, borrows } => {
+            Self::FragmentDefinitionReference { name, borrows }
+            | Self::FragmentDefinitionAlias {
+                fragment_name: name,
+                borrows,
+                ..
+            } => {
                 *borrows = fragment_definitions_contains_reference_types[name];
             }
             Self::Leaf { .. } | Self::BuiltinScalar { .. } => {}
@@ -79,6 +93,7 @@ impl<'a> ExecutableType<'a> {
             Self::Leaf { borrows, .. } => *borrows,
             Self::BuiltinScalar { borrows, .. } => *borrows,
             Self::FragmentDefinitionReference { borrows, .. } => *borrows,
+            Self::FragmentDefinitionAlias { borrows, .. } => *borrows,
             Self::Struct(es) => es.borrows(),
             Self::Enum(ee) => ee.borrows(),
         }
@@ -227,12 +242,12 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> ExecutableDocumentToExecuta
                 .subscription()
                 .expect("Unsupported operation type used"),
         };
-        self.build_base_type(
+        self.build_definition_type(
             operation_definition
                 .as_ref()
                 .name()
                 .unwrap_or(ANONYMOUS_OPERATION_STRUCT_NAME),
-            Some(operation_definition.as_ref().selection_set()),
+            operation_definition.as_ref().selection_set(),
             BaseOutputTypeReference::Object(object_type_definition),
         )
     }
@@ -246,15 +261,35 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> ExecutableDocumentToExecuta
             .schema_definition()
             .get_type_definition(fragment_definition.type_condition())
             .expect("Fragment type condition not found");
-        self.build_base_type(
+        self.build_definition_type(
             fragment_definition.name(),
-            Some(fragment_definition.selection_set()),
+            fragment_definition.selection_set(),
             target_type
                 .try_into()
                 .expect("Fragment type not an output type"),
         )
     }
 
+    /// Builds the type for an operation or fragment definition, which always results in a type with its name
+    fn build_definition_type(
+        &self,
+        name: &'a str,
+        selection_set: &'a E::SelectionSet,
+        base_output_type: BaseOutputTypeReference<'a, S::OutputType>,
+    ) -> ExecutableType<'a> {
+        match self.build_base_type(name, Some(selection_set), base_output_type) {
+            ExecutableType::FragmentDefinitionReference {
+                name: fragment_name,
+                borrows,
+            } => ExecutableType::FragmentDefinitionAlias {
+                name,
+                fragment_name,
+                borrows,
+            },
+            executable_type => executable_type,
+        }
+    }
+
     fn fields_or_fragment_spread(
         &self,
         selection_set: &'a E::SelectionSet,
@@ -510,7 +545,11 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> ExecutableDocumentToExecuta
                     )
                 })
             }),
-            ExecutableType::FragmentDefinitionReference { name, .. } => {
+            ExecutableType::FragmentDefinitionReference { name, .. }
+            | ExecutableType::FragmentDefinitionAlias {
+                fragment_name: name,
+                ..
+            } => {
                 // cannot rely on the `borrows` value in the `FragmentDefinitionReference` yet
                 if visited_fragment_definitions.insert(name) {
                     Self::type_borrows(
-- 
2.43.0


From 50c4050e672561fc68db2ba05bce5e2be243e62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:28 +0000
Subject: [PATCH 37/42] fix: let fields named out and k be decoded with the
 miniserde codec

---
 .../src/executable_definition/executable_enum_builder.rs    | 6 +++---
 .../src/executable_definition/executable_struct_builder.rs  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/bluejay-typegen-macro/src/executable_definition/executable_enum_builder.rs b/bluejay-typegen-macro/src/executable_definition/executable_enum_builder.rs
index 5cf04a6..e9c0342 100644
--- a/bluejay-typegen-macro/src/executable_definition/executable_enum_builder.rs
+++ b/bluejay-typegen-macro/src/executable_definition/executable_enum_builder.rs
@@ -204,7 +204,7 @@ impl<'a, S: SchemaDefinition> ExecutableEnumBuilder<'a, S> {
 
                     parse_quote! {
                         #builder_state_ident::#variant_ident { #(#field_idents,)* } => {
-                            match k {
+                            match __k {
                                 #(#field_serialized_as => ::std::result::Result::Ok(::bluejay_typegen::miniserde::de::Deserialize::begin(#field_idents)),)*
                                 _ => ::std::result::Result::Err(::bluejay_typegen::miniserde::Error)
                             }
@@ -283,12 +283,12 @@ impl<'a, S: SchemaDefinition> ExecutableEnumBuilder<'a, S> {
                     }
 
                     impl<'a> ::bluejay_typegen::miniserde::de::Map for #builder_ident<'a> {
-                        fn key(&mut self, k: &::std::primitive::str) -> ::bluejay_typegen::miniserde::Result<&mut dyn ::bluejay_typegen::miniserde::de::Visitor> {
+                        fn key(&mut self, __k: &::std::primitive::str) -> ::bluejay_typegen::miniserde::Result<&mut dyn ::bluejay_typegen::miniserde::de::Visitor> {
                             if let ::std::option::Option::Some(ref mut state) = self.state {
                                 match state {
                                     #(#state_key_arm,)*
                                 }
-                            } else if k == "__typename" {
+                            } else if __k == "__typename" {
                                 ::std::result::Result::Ok(::bluejay_typegen::miniserde::de::Deserialize::begin(&mut self.state))
                             } else {
                                 ::std::result::Result::Err(::bluejay_typegen::miniserde::Error)
diff --git a/bluejay-typegen-macro/src/executable_definition/executable_struct_builder.rs b/bluejay-typegen-macro/src/executable_definition/executable_struct_builder.rs
index 0d4b231..5293dda 100644
--- a/bluejay-typegen-macro/src/executable_definition/executable_struct_builder.rs
+++ b/bluejay-typegen-macro/src/executable_definition/executable_struct_builder.rs
@@ -140,7 +140,7 @@ impl<'a, S: SchemaDefinition> ExecutableStructBuilder<'a, S> {
 
                     struct #builder_ident<'a> {
                         #(#builder_fields,)*
-                        out: &'a mut ::std::option::Option<#name_ident>,
+                        __out: &'a mut ::std::option::Option<#name_ident>,
                     }
 
                     impl<'a> ::bluejay_typegen::miniserde::de::Map for #builder_ident<'a> {
@@ -153,7 +153,7 @@ impl<'a, S: SchemaDefinition> ExecutableStructBuilder<'a, S> {
 
                         fn finish(&mut self) -> ::bluejay_typegen::miniserde::Result<()> {
                             #(let #field_idents = self.#field_idents.take().ok_or(::bluejay_typegen::miniserde::Error)?;)*
-                            *self.out = ::std::option::Option::Some(#name_ident { #(#field_idents,)* });
+                            *self.__out = ::std::option::Option::Some(#name_ident { #(#field_idents,)* });
                             ::std::result::Result::Ok(())
                         }
                     }
@@ -162,7 +162,7 @@ impl<'a, S: SchemaDefinition> ExecutableStructBuilder<'a, S> {
                         fn map(&mut self) -> ::bluejay_typegen::miniserde::Result<::std::boxed::Box<dyn ::bluejay_typegen::miniserde::de::Map + '_>> {
                             ::std::result::Result::Ok(::std::boxed::Box::new(#builder_ident {
                                 #(#field_idents: ::std::option::Option::None,)*
-                                out: &mut self.out,
+                                __out: &mut self.out,
                             }))
                         }
                     }
-- 
2.43.0


From f8915152307b8f2c94b81650fd91899dd4ab5555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:34 +0000
Subject: [PATCH 38/42] fix: make fields with @skip or @include optional in
 generated types

---
 .../executable_enum_builder.rs                |  2 +-
 .../executable_struct_builder.rs              |  2 +-
 .../intermediate_representation.rs            | 20 ++++++++++++++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/bluejay-typegen-macro/src/executable_definition/executable_enum_builder.rs b/bluejay-typegen-macro/src/executable_definition/executable_enum_builder.rs
index e9c0342..ccbb9c2 100644
--- a/bluejay-typegen-macro/src/executable_definition/executable_enum_builder.rs
+++ b/bluejay-typegen-macro/src/executable_definition/executable_enum_builder.rs
@@ -174,7 +174,7 @@ impl<'a, S: SchemaDefinition> ExecutableEnumBuilder<'a, S> {
 
                     parse_quote! {
                         #serialized_as => {
-                            self.out = ::std::option::Option::Some(#builder_state_ident::#name_ident { #(#field_idents: ::std::option::Option::None,)* });
+                            self.out = ::std::option::Option::Some(#builder_state_ident::#name_ident { #(#field_idents: ::bluejay_typegen::miniserde::de::Deserialize::default(),)* });
                             ::std::result::Result::Ok(())
                         }
                     }
diff --git a/bluejay-typegen-macro/src/executable_definition/executable_struct_builder.rs b/bluejay-typegen-macro/src/executable_definition/executable_struct_builder.rs
index 5293dda..d1afaac 100644
--- a/bluejay-typegen-macro/src/executable_definition/executable_struct_builder.rs
+++ b/bluejay-typegen-macro/src/executable_definition/executable_struct_builder.rs
@@ -161,7 +161,7 @@ impl<'a, S: SchemaDefinition> ExecutableStructBuilder<'a, S> {
                     impl ::bluejay_typegen::miniserde::de::Visitor for __Place<#name_ident> {
                         fn map(&mut self) -> ::bluejay_typegen::miniserde::Result<::std::boxed::Box<dyn ::bluejay_typegen::miniserde::de::Map + '_>> {
                             ::std::result::Result::Ok(::std::boxed::Box::new(#builder_ident {
-                                #(#field_idents: ::std::option::Option::None,)*
+                                #(#field_idents: ::bluejay_typegen::miniserde::de::Deserialize::default(),)*
                                 __out: &mut self.out,
                             }))
                         }
diff --git a/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs b/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
index 1f799d6..237b966 100644
--- a/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
+++ b/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
@@ -9,7 +9,7 @@ use bluejay_core::{
         ExecutableDocument, Field, FragmentDefinition, FragmentSpread, InlineFragment,
         OperationDefinition, Selection, SelectionReference,
     },
-    AsIter, BuiltinScalarDefinition, OperationType,
+    AsIter, BuiltinScalarDefinition, Directive, OperationType,
 };
 use itertools::Either;
 use std::collections::{BTreeMap, HashMap, HashSet};
@@ -364,6 +364,16 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> ExecutableDocumentToExecuta
                 .as_ref(self.config.schema_definition()),
         );
 
+        let r#type = match r#type {
+            // the field may be absent from the response
+            r#type @ (WrappedExecutableType::Base(_) | WrappedExecutableType::Vec(_))
+                if Self::is_conditional(field) =>
+            {
+                WrappedExecutableType::Optional(Box::new(r#type))
+            }
+            r#type => r#type,
+        };
+
         ExecutableField {
             description: field_definition.description(),
             graphql_name: field.response_name(),
@@ -371,6 +381,14 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> ExecutableDocumentToExecuta
         }
     }
 
+    fn is_conditional(field: &'a E::Field) -> bool {
+        field.directives().map_or(false, |directives| {
+            directives
+                .iter()
+                .any(|directive| matches!(directive.name(), "skip" | "include"))
+        })
+    }
+
     fn build_field_type(
         &self,
         field: &'a E::Field,
-- 
2.43.0


From aedd78ff1047ab850dbfe4871a43656d55b25b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:55 +0000
Subject: [PATCH 39/42] fix: omit a non-null input field with a default value
 when it is not given

---
 .../src/input_object_type_definition.rs       | 52 +++++++++++++++++--
 1 file changed, 48 insertions(+), 4 deletions(-)

diff --git a/bluejay-typegen-macro/src/input_object_type_definition.rs b/bluejay-typegen-macro/src/input_object_type_definition.rs
index 2ba045a..016dda1 100644
--- a/bluejay-typegen-macro/src/input_object_type_definition.rs
+++ b/bluejay-typegen-macro/src/input_object_type_definition.rs
@@ -77,6 +77,7 @@ impl<'a, S: SchemaDefinition> InputObjectTypeDefinitionBuilder<'a, S> {
         let field_type_paths = self.field_type_paths();
         let field_serde_rename_attributes = self.field_serde_rename_attributes();
         let field_serde_borrow_attributes = self.field_serde_borrow_attributes();
+        let field_serde_skip_attributes = self.field_serde_skip_attributes();
         let lifetime = self.lifetime(self.input_object_type_definition);
 
         let mut items = vec![parse_quote! {
@@ -86,6 +87,7 @@ impl<'a, S: SchemaDefinition> InputObjectTypeDefinitionBuilder<'a, S> {
                     #field_description_attributes
                     #field_serde_rename_attributes
                     #field_serde_borrow_attributes
+                    #field_serde_skip_attributes
                     pub #field_idents: #field_type_paths,
                 )*
             }
@@ -207,6 +209,33 @@ impl<'a, S: SchemaDefinition> InputObjectTypeDefinitionBuilder<'a, S> {
             .collect()
     }
 
+    /// whether each field is optional because it has a default value, but is not nullable, in which
+    /// case an absent value must be omitted instead of being serialized as null
+    fn field_omissions(&self) -> Vec<bool> {
+        self.input_object_type_definition
+            .input_field_definitions()
+            .iter()
+            .map(|ivd| {
+                ivd.default_value().is_some()
+                    && ivd
+                        .r#type()
+                        .as_ref(self.config.schema_definition())
+                        .is_required()
+            })
+            .collect()
+    }
+
+    fn field_serde_skip_attributes(&self) -> Vec<Option<syn::Attribute>> {
+        self.field_omissions()
+            .into_iter()
+            .map(|omit| {
+                (omit && self.config.codec() == Codec::Serde).then(
+                    || parse_quote!(#[serde(skip_serializing_if = "::std::option::Option::is_none")]),
+                )
+            })
+            .collect()
+    }
+
     fn lifetime(
         &self,
         input_object_type_definition: &'a S::InputObjectTypeDefinition,
@@ -404,6 +433,18 @@ impl<'a, S: SchemaDefinition> InputObjectTypeDefinitionBuilder<'a, S> {
             let field_idents = self.field_idents();
             let serialized_as = self.field_serialized_as();
             let states = (0..self.field_idents().len()).collect::<Vec<_>>();
+            let omissions: Vec<Option<syn::Stmt>> = self
+                .field_omissions()
+                .into_iter()
+                .zip(&field_idents)
+                .map(|(omit, field_ident)| {
+                    omit.then(|| parse_quote! {
+                        if self.data.#field_ident.is_none() {
+                            return self.next();
+                        }
+                    })
+                })
+                .collect();
 
             parse_quote! {
                 const _: () = {
@@ -418,10 +459,13 @@ impl<'a, S: SchemaDefinition> InputObjectTypeDefinitionBuilder<'a, S> {
                             self.state += 1;
                             match state {
                                 #(
-                                    #states => ::std::option::Option::Some((
-                                        ::std::borrow::Cow::Borrowed(#serialized_as),
-                                        &self.data.#field_idents,
-                                    )),
+                                    #states => {
+                                        #omissions
+                                        ::std::option::Option::Some((
+                                            ::std::borrow::Cow::Borrowed(#serialized_as),
+                                            &self.data.#field_idents,
+                                        ))
+                                    }
                                 )*
                                 _ => ::std::option::Option::None,
                             }
-- 
2.43.0


From 6ab7b9096f0f52fb451476c7db1523594aacefae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:21 +0000
Subject: [PATCH 40/42] fix: reject a fragment spread on a union that does not
 apply to all of its members

---
 bluejay-typegen-macro/src/validation/error.rs | 11 ++++++
 .../src/validation/selections_are_valid.rs    | 39 +++++++++++++++++--
 2 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/bluejay-typegen-macro/src/validation/error.rs b/bluejay-typegen-macro/src/validation/error.rs
index 57d5634..a41dfbf 100644
--- a/bluejay-typegen-macro/src/validation/error.rs
+++ b/bluejay-typegen-macro/src/validation/error.rs
@@ -37,6 +37,9 @@ pub(crate) enum Error<'a, E: ExecutableDocument, S: SchemaDefinition> {
     FragmentSpreadOnInterfaceInvalidTarget {
         fragment_spread: &'a E::FragmentSpread,
     },
+    FragmentSpreadOnUnionInvalidTarget {
+        fragment_spread: &'a E::FragmentSpread,
+    },
     FragmentAndOperationNamesClash {
         operation_definition: &'a E::OperationDefinition,
         fragment_definition: &'a E::FragmentDefinition,
@@ -127,6 +130,14 @@ impl<'a, S: SchemaDefinition> From<Error<'a, ParserExecutableDocument<'a>, S>> f
                 )),
                 Vec::new(),
             ),
+            Error::FragmentSpreadOnUnionInvalidTarget { fragment_spread } => Self::new(
+                format!("{CRATE_NAME} requires fragment spreads on unions to target either the union or a type that includes all of its members"),
+                Some(Annotation::new(
+                    "Fragment spread on union type",
+                    fragment_spread.span().clone(),
+                )),
+                Vec::new(),
+            ),
             Error::FragmentAndOperationNamesClash { operation_definition, fragment_definition } => Self::new(
                 format!("{CRATE_NAME} requires fragment and operation names to be unique, but encountered a clash with name `{}`", fragment_definition.name().as_ref()),
                 Some(Annotation::new(
diff --git a/bluejay-typegen-macro/src/validation/selections_are_valid.rs b/bluejay-typegen-macro/src/validation/selections_are_valid.rs
index cb7d7e3..2bed5e1 100644
--- a/bluejay-typegen-macro/src/validation/selections_are_valid.rs
+++ b/bluejay-typegen-macro/src/validation/selections_are_valid.rs
@@ -1,8 +1,8 @@
 use crate::validation::Error;
 use bluejay_core::{
     definition::{
-        InterfaceImplementation, InterfaceTypeDefinition, SchemaDefinition,
-        TypeDefinitionReference, UnionMemberTypes, UnionTypeDefinition,
+        InterfaceImplementation, InterfaceTypeDefinition, ObjectTypeDefinition, SchemaDefinition,
+        TypeDefinitionReference, UnionMemberType, UnionMemberTypes, UnionTypeDefinition,
     },
     executable::{
         ExecutableDocument, Field, FragmentDefinition, FragmentSpread, InlineFragment, Selection,
@@ -18,15 +18,17 @@ use itertools::{Either, Itertools};
 
 pub(crate) struct SelectionsAreValid<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> {
     errors: Vec<Error<'a, E, S>>,
+    schema_definition: &'a S,
     cache: &'a Cache<'a, E, S>,
 }
 
 impl<'a, E: ExecutableDocument, S: SchemaDefinition> Visitor<'a, E, S>
     for SelectionsAreValid<'a, E, S>
 {
-    fn new(_: &'a E, _: &'a S, cache: &'a Cache<'a, E, S>) -> Self {
+    fn new(_: &'a E, schema_definition: &'a S, cache: &'a Cache<'a, E, S>) -> Self {
         Self {
             errors: Vec::new(),
+            schema_definition,
             cache,
         }
     }
@@ -148,7 +150,36 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> SelectionsAreValid<'a, E, S
         union_type_definition: &'a S::UnionTypeDefinition,
     ) {
         match self.isolated_fragment_spread(selection_set) {
-            Ok(Some(_)) => {
+            Ok(Some(fragment_spread)) => {
+                // The generated type assumes that the fragment spread is always present, so its target
+                // must be a type that every member of the union satisfies.
+                let fragment_definition = self
+                    .cache
+                    .fragment_definition(fragment_spread.name())
+                    .unwrap();
+                let type_condition = fragment_definition.type_condition();
+                let always_present = type_condition == union_type_definition.name()
+                    || union_type_definition
+                        .union_member_types()
+                        .iter()
+                        .all(|member| {
+                            let member_type = member.member_type(self.schema_definition);
+                            member_type.name() == type_condition
+                                || member_type.interface_implementations().map_or(
+                                    false,
+                                    |interface_implementations| {
+                                        interface_implementations.iter().any(
+                                            |interface_implementation| {
+                                                interface_implementation.name() == type_condition
+                                            },
+                                        )
+                                    },
+                                )
+                        });
+                if !always_present {
+                    self.errors
+                        .push(Error::FragmentSpreadOnUnionInvalidTarget { fragment_spread });
+                }
                 return;
             }
             Ok(None) => {}
-- 
2.43.0


From c6445b1800ef5f9ea34956acee979c5a088bf111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:22 +0000
Subject: [PATCH 41/42] fix: allow selecting __typename in an inline fragment
 on a union

---
 .../executable_definition/intermediate_representation.rs  | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs b/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
index 237b966..f707b15 100644
--- a/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
+++ b/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
@@ -513,15 +513,17 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> ExecutableDocumentToExecuta
                                     fields: inline_fragment
                                         .selection_set()
                                         .iter()
-                                        .map(|selection| match selection.as_ref() {
+                                        .filter_map(|selection| match selection.as_ref() {
+                                            // the variant already represents the unaliased `__typename`
+                                            SelectionReference::Field(field) if field.response_name() == "__typename" => None,
                                             SelectionReference::Field(field) => {
-                                                self.build_field(
+                                                Some(self.build_field(
                                                     field,
                                                     target_type
                                                         .fields_definition()
                                                         .get(field.name())
                                                         .expect("Field not found"),
-                                                )
+                                                ))
                                             }
                                             SelectionReference::InlineFragment(_)
                                             | SelectionReference::FragmentSpread(_) => {
-- 
2.43.0


From 3ff7d18032096426cea549ae1fcab9296f313983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:34 +0000
Subject: [PATCH 42/42] fix: generate valid identifiers for names that are only
 keywords or digits after case conversion

---
 bluejay-typegen-macro/src/names.rs | 31 +++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/bluejay-typegen-macro/src/names.rs b/bluejay-typegen-macro/src/names.rs
index 46f07ab..b4509e7 100644
--- a/bluejay-typegen-macro/src/names.rs
+++ b/bluejay-typegen-macro/src/names.rs
@@ -5,11 +5,11 @@ use quote::format_ident;
 pub(crate) const ANONYMOUS_OPERATION_STRUCT_NAME: &str = "Root";
 
 pub(crate) fn type_name(graphql_name: &str) -> String {
-    graphql_name.to_case(Case::Pascal)
+    type_ident(graphql_name).to_string()
 }
 
 pub(crate) fn type_ident(graphql_name: &str) -> Ident {
-    to_ident(&type_name(graphql_name))
+    to_ident(&graphql_name.to_case(Case::Pascal))
 }
 
 pub(crate) fn enum_variant_name(graphql_name: &str) -> String {
@@ -33,19 +33,32 @@ pub(crate) fn module_name(graphql_name: &str) -> String {
 }
 
 pub(crate) fn module_ident(graphql_name: &str) -> Ident {
-    to_ident(&module_name(graphql_name))
+    let ident = to_ident(&module_name(graphql_name));
+    if ident == type_ident(graphql_name) {
+        // types and modules share a namespace
+        format_ident!("{}_", ident)
+    } else {
+        ident
+    }
 }
 
 fn to_ident(name: &str) -> Ident {
     match name {
-        "as" | "break" | "const" | "continue" | "crate" | "else" | "enum" | "extern" | "false"
-        | "fn" | "for" | "if" | "impl" | "in" | "let" | "loop" | "match" | "mod" | "move"
-        | "mut" | "pub" | "ref" | "return" | "self" | "Self" | "static" | "struct" | "super"
-        | "trait" | "true" | "type" | "unsafe" | "use" | "where" | "while" | "async" | "await"
-        | "dyn" | "abstract" | "become" | "box" | "do" | "final" | "macro" | "override"
-        | "priv" | "typeof" | "unsized" | "virtual" | "yield" | "try" | "union" => {
+        // cannot be raw identifiers
+        "crate" | "self" | "Self" | "super" => format_ident!("{}_", name),
+        "as" | "break" | "const" | "continue" | "else" | "enum" | "extern" | "false" | "fn"
+        | "for" | "if" | "impl" | "in" | "let" | "loop" | "match" | "mod" | "move" | "mut"
+        | "pub" | "ref" | "return" | "static" | "struct" | "trait" | "true" | "type" | "unsafe"
+        | "use" | "where" | "while" | "async" | "await" | "dyn" | "abstract" | "become" | "box"
+        | "do" | "final" | "macro" | "override" | "priv" | "typeof" | "unsized" | "virtual"
+        | "yield" | "try" | "union" => {
             format_ident!("r#{}", name)
         }
+        // the case conversion removes underscores, which may leave something that is not an identifier
+        "" => format_ident!("__"),
+        _ if !name.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') => {
+            format_ident!("_{}", name)
+        }
         _ => format_ident!("{}", name),
     }
 }
-- 
2.43.0

