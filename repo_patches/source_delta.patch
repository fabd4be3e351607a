From 8567452f601bed5d7251da62a15841f5b81a8c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:47 +0000
Subject: [PATCH 01/35] fix: check that fields selected on union types can
 merge

---
 .../src/executable/document/rules/field_selection_merging.rs   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
index 939ba56..481eb25 100644
--- a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
+++ b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
@@ -151,7 +151,8 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
                             .entry(otd.name())
                             .or_default()
                             .push(field_context),
-                        TypeDefinitionReference::Interface(_) => abstract_group.push(field_context),
+                        TypeDefinitionReference::Interface(_)
+                        | TypeDefinitionReference::Union(_) => abstract_group.push(field_context),
                         _ => {}
                     }
                     (abstract_group, concrete_groups)
-- 
2.43.0


From 9a2d45f95d562d6d0e017f3038969a18d5216fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:48 +0000
Subject: [PATCH 02/35] fix: validate fragment selections against the
 fragment's type condition when merging

---
 .../src/executable/document/rules/field_selection_merging.rs    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
index 481eb25..d0569df 100644
--- a/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
+++ b/bluejay-validator/src/executable/document/rules/field_selection_merging.rs
@@ -300,7 +300,7 @@ impl<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> FieldSelectionMer
                         {
                             if self.selection_set_valid(
                                 fragment_definition.selection_set(),
-                                parent_type,
+                                scoped_type,
                             ) {
                                 let mut new_parent_fragments = HashSet::new();
                                 new_parent_fragments.clone_from(parent_fragments);
-- 
2.43.0


From 7e60b970307c8921f263432998c929d6225f894e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:28 +0000
Subject: [PATCH 03/35] fix: expand fragments when checking that a subscription
 has a single root field

---
 ...ubscription_operation_single_root_field.rs | 67 +++++++++++++------
 1 file changed, 46 insertions(+), 21 deletions(-)

diff --git a/bluejay-validator/src/executable/document/rules/subscription_operation_single_root_field.rs b/bluejay-validator/src/executable/document/rules/subscription_operation_single_root_field.rs
index d1093fb..ee3b835 100644
--- a/bluejay-validator/src/executable/document/rules/subscription_operation_single_root_field.rs
+++ b/bluejay-validator/src/executable/document/rules/subscription_operation_single_root_field.rs
@@ -4,10 +4,11 @@ use crate::executable::{
 };
 use bluejay_core::definition::SchemaDefinition;
 use bluejay_core::executable::{
-    ExecutableDocument, FragmentDefinition, FragmentSpread, InlineFragment, OperationDefinition,
-    Selection, SelectionReference,
+    ExecutableDocument, Field, FragmentDefinition, FragmentSpread, InlineFragment,
+    OperationDefinition, Selection, SelectionReference,
 };
 use bluejay_core::{AsIter, OperationType};
+use std::collections::HashSet;
 
 pub struct SubscriptionOperationSingleRootField<'a, E: ExecutableDocument> {
     invalid_operation_definitions: Vec<&'a E::OperationDefinition>,
@@ -32,29 +33,53 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> Visitor<'a, E, S>
         ) {
             return;
         }
-        let selection_set = core_operation_definition.selection_set();
-        if selection_set.len() != 1 {
+        let mut response_names = HashSet::new();
+        self.collect_response_names(
+            core_operation_definition.selection_set(),
+            &mut response_names,
+            &mut HashSet::new(),
+        );
+        if response_names.len() > 1 {
             self.invalid_operation_definitions
                 .push(operation_definition);
-        } else if let Some(first_selection) = selection_set.iter().next() {
-            let fields_count = match first_selection.as_ref() {
-                SelectionReference::Field(_) => Some(1),
-                SelectionReference::FragmentSpread(fs) => {
-                    let fragment_definition = self
-                        .executable_document
-                        .fragment_definitions()
-                        .find(|fd| fd.name() == fs.name());
-                    fragment_definition.map(|fd| fd.selection_set().len())
+        }
+    }
+}
+
+impl<'a, E: ExecutableDocument> SubscriptionOperationSingleRootField<'a, E> {
+    fn collect_response_names(
+        &self,
+        selection_set: &'a E::SelectionSet,
+        response_names: &mut HashSet<&'a str>,
+        visited_fragments: &mut HashSet<&'a str>,
+    ) {
+        selection_set
+            .iter()
+            .for_each(|selection| match selection.as_ref() {
+                SelectionReference::Field(f) => {
+                    response_names.insert(f.response_name());
                 }
-                SelectionReference::InlineFragment(inline_fragment) => {
-                    Some(inline_fragment.selection_set().len())
+                SelectionReference::FragmentSpread(fs) => {
+                    if visited_fragments.insert(fs.name()) {
+                        if let Some(fragment_definition) = self
+                            .executable_document
+                            .fragment_definitions()
+                            .find(|fd| fd.name() == fs.name())
+                        {
+                            self.collect_response_names(
+                                fragment_definition.selection_set(),
+                                response_names,
+                                visited_fragments,
+                            );
+                        }
+                    }
                 }
-            };
-            if matches!(fields_count, Some(fc) if fc != 1) {
-                self.invalid_operation_definitions
-                    .push(operation_definition);
-            }
-        }
+                SelectionReference::InlineFragment(inline_fragment) => self.collect_response_names(
+                    inline_fragment.selection_set(),
+                    response_names,
+                    visited_fragments,
+                ),
+            });
     }
 }
 
-- 
2.43.0


From 5e0d9ae0ccc849cbc58a1673f9bde8355f813e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:29 +0000
Subject: [PATCH 04/35] fix: check variable usages inside input objects in list
 literals

---
 .../document/rules/all_variable_usages_allowed.rs    | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs b/bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs
index f5de1fa..3189e63 100644
--- a/bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs
+++ b/bluejay-validator/src/executable/document/rules/all_variable_usages_allowed.rs
@@ -84,13 +84,11 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> AllVariableUsagesAllowed<'a
                 }
             }),
             ValueReference::Object(o) => o.iter().for_each(|(key, value)| {
-                if let Some(ivd) = location.input_value_definition() {
-                    if let BaseInputTypeReference::InputObject(iotd) =
-                        ivd.r#type().base(self.schema_definition)
-                    {
-                        if let Some(ivd) = iotd.input_field_definitions().get(key.as_ref()) {
-                            self.visit_value(value, root, VariableUsageLocation::ObjectField(ivd));
-                        }
+                if let BaseInputTypeReference::InputObject(iotd) =
+                    location.r#type().base(self.schema_definition)
+                {
+                    if let Some(ivd) = iotd.input_field_definitions().get(key.as_ref()) {
+                        self.visit_value(value, root, VariableUsageLocation::ObjectField(ivd));
                     }
                 }
             }),
-- 
2.43.0


From 80cbbf0114b1f12d973c1cb758ea6fbb357a1a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:39 +0000
Subject: [PATCH 05/35] fix: look up the default of the variable itself when
 checking input sizes

---
 .../src/executable/operation/analyzers/input_size.rs            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bluejay-validator/src/executable/operation/analyzers/input_size.rs b/bluejay-validator/src/executable/operation/analyzers/input_size.rs
index d288a17..1a1c15f 100644
--- a/bluejay-validator/src/executable/operation/analyzers/input_size.rs
+++ b/bluejay-validator/src/executable/operation/analyzers/input_size.rs
@@ -128,7 +128,7 @@ fn find_input_size_offenders_arguments<
                 let variable_definition = variable_definitions.map(|variable_definitions| {
                     variable_definitions
                         .iter()
-                        .find(|def| def.variable() == argument_name)
+                        .find(|def| def.variable() == name)
                 });
                 if let Some(Some(var_def)) = variable_definition {
                     let default_value = var_def.default_value();
-- 
2.43.0


From 8216c8bf6c1c66cf6595a709c4c9051077410500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:40 +0000
Subject: [PATCH 06/35] fix: saturate complexity cost instead of overflowing

---
 .../src/executable/operation/analyzers/complexity_cost.rs   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs b/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs
index c6b5fbb..50f3b5b 100644
--- a/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs
+++ b/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs
@@ -277,9 +277,11 @@ impl<
 
                 let children_cost = self.merged_max_complexity_for_scopes(&composite_scopes);
 
-                (base_cost + children_cost) * multiplier
+                base_cost
+                    .saturating_add(children_cost)
+                    .saturating_mul(multiplier)
             })
-            .sum()
+            .fold(0, usize::saturating_add)
     }
 
     fn possible_type_names(
-- 
2.43.0


From 2b76f278f48e87af6b15631b94ea6c7b2f1a7b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:11 +0000
Subject: [PATCH 07/35] fix: compare the directives of an input field, not
 those of its type

---
 bluejay-schema-comparator/src/diff/input_field.rs       | 7 ++-----
 bluejay-schema-comparator/src/diff/input_object_type.rs | 9 ++-------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/bluejay-schema-comparator/src/diff/input_field.rs b/bluejay-schema-comparator/src/diff/input_field.rs
index 2e2606a..2d71c03 100644
--- a/bluejay-schema-comparator/src/diff/input_field.rs
+++ b/bluejay-schema-comparator/src/diff/input_field.rs
@@ -7,7 +7,6 @@ use bluejay_core::Value;
 
 pub struct InputFieldDiff<'a, S: SchemaDefinition> {
     old_type_definition: &'a S::InputObjectTypeDefinition,
-    new_type_definition: &'a S::InputObjectTypeDefinition,
     old_field_definition: &'a S::InputValueDefinition,
     new_field_definition: &'a S::InputValueDefinition,
 }
@@ -15,13 +14,11 @@ pub struct InputFieldDiff<'a, S: SchemaDefinition> {
 impl<'a, S: SchemaDefinition + 'a> InputFieldDiff<'a, S> {
     pub fn new(
         old_type_definition: &'a S::InputObjectTypeDefinition,
-        new_type_definition: &'a S::InputObjectTypeDefinition,
         old_field_definition: &'a S::InputValueDefinition,
         new_field_definition: &'a S::InputValueDefinition,
     ) -> Self {
         Self {
             old_type_definition,
-            new_type_definition,
             old_field_definition,
             new_field_definition,
         }
@@ -79,7 +76,7 @@ impl<'a, S: SchemaDefinition + 'a> InputFieldDiff<'a, S> {
         }
 
         changes.extend(
-            directive_additions::<S, _>(self.old_type_definition, self.new_type_definition).map(
+            directive_additions::<S, _>(self.old_field_definition, self.new_field_definition).map(
                 |directive| Change::DirectiveAdded {
                     directive,
                     location: DirectiveLocation::InputFieldDefinition,
@@ -89,7 +86,7 @@ impl<'a, S: SchemaDefinition + 'a> InputFieldDiff<'a, S> {
         );
 
         changes.extend(
-            directive_removals::<S, _>(self.old_type_definition, self.new_type_definition).map(
+            directive_removals::<S, _>(self.old_field_definition, self.new_field_definition).map(
                 |directive| Change::DirectiveRemoved {
                     directive,
                     location: DirectiveLocation::InputFieldDefinition,
diff --git a/bluejay-schema-comparator/src/diff/input_object_type.rs b/bluejay-schema-comparator/src/diff/input_object_type.rs
index 79e5c46..5daa0f7 100644
--- a/bluejay-schema-comparator/src/diff/input_object_type.rs
+++ b/bluejay-schema-comparator/src/diff/input_object_type.rs
@@ -72,13 +72,8 @@ impl<'a, S: SchemaDefinition + 'a> InputObjectTypeDiff<'a, S> {
 
                     if let Some(new_field) = new_field {
                         changes.extend(
-                            InputFieldDiff::new(
-                                self.old_type_definition,
-                                self.new_type_definition,
-                                old_field,
-                                new_field,
-                            )
-                            .diff(),
+                            InputFieldDiff::new(self.old_type_definition, old_field, new_field)
+                                .diff(),
                         );
                     }
                 },
-- 
2.43.0


From 53a5ee0b719221812541546548738b0aa8e44f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:11 +0000
Subject: [PATCH 08/35] fix: report directive arguments removed when no
 argument is left

---
 bluejay-schema-comparator/src/diff/directive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bluejay-schema-comparator/src/diff/directive.rs b/bluejay-schema-comparator/src/diff/directive.rs
index d17bda3..1bedf3c 100644
--- a/bluejay-schema-comparator/src/diff/directive.rs
+++ b/bluejay-schema-comparator/src/diff/directive.rs
@@ -91,7 +91,7 @@ impl<'a, S: SchemaDefinition + 'a> DirectiveDiff<'a, S> {
             .into_iter()
             .flatten()
             .filter(|old_arg| {
-                self.new_directive.arguments().map_or(false, |args| {
+                self.new_directive.arguments().map_or(true, |args| {
                     !args.iter().any(|new_arg| old_arg.name() == new_arg.name())
                 })
             })
-- 
2.43.0


From 50a5ea6b1a8e725de395593a317d357d3cdf76aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:11 +0000
Subject: [PATCH 09/35] fix: report arguments added to or removed from a
 directive definition without others

---
 bluejay-schema-comparator/src/diff/directive_definition.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bluejay-schema-comparator/src/diff/directive_definition.rs b/bluejay-schema-comparator/src/diff/directive_definition.rs
index c99d6ff..e96562b 100644
--- a/bluejay-schema-comparator/src/diff/directive_definition.rs
+++ b/bluejay-schema-comparator/src/diff/directive_definition.rs
@@ -126,7 +126,7 @@ impl<'a, S: SchemaDefinition + 'a> DirectiveDefinitionDiff<'a, S> {
             .filter(|old_argument| {
                 self.new_directive_definition
                     .arguments_definition()
-                    .map_or(false, |args| {
+                    .map_or(true, |args| {
                         !args
                             .iter()
                             .any(|new_argument| old_argument.name() == new_argument.name())
@@ -143,7 +143,7 @@ impl<'a, S: SchemaDefinition + 'a> DirectiveDefinitionDiff<'a, S> {
             .filter(|new_argument| {
                 self.old_directive_definition
                     .arguments_definition()
-                    .map_or(false, |args| {
+                    .map_or(true, |args| {
                         !args
                             .iter()
                             .any(|old_argument| old_argument.name() == new_argument.name())
-- 
2.43.0


From 2832079283ff79381598380d0d22a1f9f94f8a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:41 +0000
Subject: [PATCH 10/35] fix: compare directives applied to custom scalars

---
 bluejay-schema-comparator/src/diff/schema.rs | 29 ++++++++++++++++----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/bluejay-schema-comparator/src/diff/schema.rs b/bluejay-schema-comparator/src/diff/schema.rs
index df2e272..0c76682 100644
--- a/bluejay-schema-comparator/src/diff/schema.rs
+++ b/bluejay-schema-comparator/src/diff/schema.rs
@@ -1,5 +1,5 @@
 use crate::changes::Change;
-use crate::diff::directive::{directive_additions, directive_removals};
+use crate::diff::directive::{common_directive_changes, directive_additions, directive_removals};
 use crate::diff::directive_definition::DirectiveDefinitionDiff;
 use crate::diff::enum_type::EnumTypeDiff;
 use crate::diff::input_object_type::InputObjectTypeDiff;
@@ -7,7 +7,8 @@ use crate::diff::interface_type::InterfaceTypeDiff;
 use crate::diff::object_type::ObjectTypeDiff;
 use crate::diff::union_type::UnionTypeDiff;
 use bluejay_core::definition::{
-    DirectiveDefinition as _, DirectiveLocation, SchemaDefinition, TypeDefinitionReference,
+    DirectiveDefinition as _, DirectiveLocation, ScalarTypeDefinition, SchemaDefinition,
+    TypeDefinitionReference,
 };
 
 pub struct SchemaDiff<'a, S: SchemaDefinition> {
@@ -136,11 +137,27 @@ impl<'a, S: SchemaDefinition> SchemaDiff<'a, S> {
             (
                 TypeDefinitionReference::BuiltinScalar(_),
                 TypeDefinitionReference::BuiltinScalar(_),
-            )
-            | (
-                TypeDefinitionReference::CustomScalar(_),
-                TypeDefinitionReference::CustomScalar(_),
             ) => {}
+            (
+                TypeDefinitionReference::CustomScalar(old_type),
+                TypeDefinitionReference::CustomScalar(new_type),
+            ) => {
+                changes.extend(directive_additions::<'a, S, _>(old_type, new_type).map(
+                    |directive| Change::DirectiveAdded {
+                        directive,
+                        location: DirectiveLocation::Scalar,
+                        member_name: old_type.name(),
+                    },
+                ));
+                changes.extend(directive_removals::<'a, S, _>(old_type, new_type).map(
+                    |directive| Change::DirectiveRemoved {
+                        directive,
+                        location: DirectiveLocation::Scalar,
+                        member_name: old_type.name(),
+                    },
+                ));
+                changes.extend(common_directive_changes(old_type, new_type));
+            }
             _ => {
                 changes.push(Change::TypeKindChanged {
                     old_type_definition: old_type,
-- 
2.43.0


From b22a69b8bf61ae8f4864f5c15b32f4b0fa57797f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:10 +0000
Subject: [PATCH 11/35] fix: compare arguments of directives applied to the
 schema

---
 bluejay-schema-comparator/src/diff/schema.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bluejay-schema-comparator/src/diff/schema.rs b/bluejay-schema-comparator/src/diff/schema.rs
index 0c76682..032cb0c 100644
--- a/bluejay-schema-comparator/src/diff/schema.rs
+++ b/bluejay-schema-comparator/src/diff/schema.rs
@@ -83,6 +83,11 @@ impl<'a, S: SchemaDefinition> SchemaDiff<'a, S> {
                 }),
         );
 
+        changes.extend(common_directive_changes(
+            self.old_schema_definition,
+            self.new_schema_definition,
+        ));
+
         self.old_schema_definition
             .directive_definitions()
             .for_each(|old_directive| {
-- 
2.43.0


From dee9315b4ee7fb468aace7184a0fa6955f4d26ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:58 +0000
Subject: [PATCH 12/35] fix: pair repeated applications of a directive when
 comparing

---
 .../src/diff/directive.rs                     | 80 ++++++++++---------
 1 file changed, 44 insertions(+), 36 deletions(-)

diff --git a/bluejay-schema-comparator/src/diff/directive.rs b/bluejay-schema-comparator/src/diff/directive.rs
index 1bedf3c..1320b79 100644
--- a/bluejay-schema-comparator/src/diff/directive.rs
+++ b/bluejay-schema-comparator/src/diff/directive.rs
@@ -1,6 +1,7 @@
 use crate::changes::Change;
 use bluejay_core::definition::{HasDirectives, SchemaDefinition};
 use bluejay_core::{Argument, Arguments, AsIter, Directive, Value};
+use std::collections::HashMap;
 
 pub type ArgumentForDirective<S> =
     <<<S as SchemaDefinition>::Directive as Directive<true>>::Arguments as Arguments<
@@ -98,28 +99,54 @@ impl<'a, S: SchemaDefinition + 'a> DirectiveDiff<'a, S> {
     }
 }
 
-pub fn directive_additions<
+/// Pairs each directive applied to a member with its counterpart on the other version of the
+/// member: the nth application of a directive corresponds to the nth application of the same one.
+fn paired_directives<
     'a,
     S: SchemaDefinition + 'a,
     T: HasDirectives<Directives = <S as SchemaDefinition>::Directives>,
 >(
-    old_member: &'a T,
-    new_member: &'a T,
-) -> impl Iterator<Item = &'a <S as SchemaDefinition>::Directive> {
-    new_member
+    member: &'a T,
+    other_member: &'a T,
+) -> impl Iterator<
+    Item = (
+        &'a <S as SchemaDefinition>::Directive,
+        Option<&'a <S as SchemaDefinition>::Directive>,
+    ),
+> {
+    let mut applications: HashMap<&'a str, usize> = HashMap::new();
+
+    member
         .directives()
         .map(|ii| ii.iter())
         .into_iter()
         .flatten()
-        .filter(|new_directive| {
-            old_member.directives().map_or(true, |directives| {
-                !directives
-                    .iter()
-                    .any(|old_directive| old_directive.name() == new_directive.name())
-            })
+        .map(move |directive| {
+            let application = applications.entry(directive.name()).or_default();
+            let counterpart = other_member
+                .directives()
+                .map(|ii| ii.iter())
+                .into_iter()
+                .flatten()
+                .filter(|other_directive| directive.name() == other_directive.name())
+                .nth(*application);
+            *application += 1;
+            (directive, counterpart)
         })
 }
 
+pub fn directive_additions<
+    'a,
+    S: SchemaDefinition + 'a,
+    T: HasDirectives<Directives = <S as SchemaDefinition>::Directives>,
+>(
+    old_member: &'a T,
+    new_member: &'a T,
+) -> impl Iterator<Item = &'a <S as SchemaDefinition>::Directive> {
+    paired_directives::<S, _>(new_member, old_member)
+        .filter_map(|(new_directive, old)| old.is_none().then_some(new_directive))
+}
+
 pub fn directive_removals<
     'a,
     S: SchemaDefinition + 'a,
@@ -128,18 +155,8 @@ pub fn directive_removals<
     old_member: &'a T,
     new_member: &'a T,
 ) -> impl Iterator<Item = &'a <S as SchemaDefinition>::Directive> {
-    old_member
-        .directives()
-        .map(|ii| ii.iter())
-        .into_iter()
-        .flatten()
-        .filter(|old_directive| {
-            new_member.directives().map_or(true, |directives| {
-                !directives
-                    .iter()
-                    .any(|new_directive| old_directive.name() == new_directive.name())
-            })
-        })
+    paired_directives::<S, _>(old_member, new_member)
+        .filter_map(|(old_directive, new)| new.is_none().then_some(old_directive))
 }
 
 pub fn common_directive_changes<
@@ -150,19 +167,10 @@ pub fn common_directive_changes<
     old_member: &'a T,
     new_member: &'a T,
 ) -> impl Iterator<Item = Change<'a, S>> {
-    old_member
-        .directives()
-        .map(|ii| ii.iter())
-        .into_iter()
-        .flatten()
-        .filter_map(move |old_directive| {
-            new_member
-                .directives()
-                .map(|ii| ii.iter())
-                .into_iter()
-                .flatten()
-                .find(|new_directive| old_directive.name() == new_directive.name())
-                .map(|new_directive| DirectiveDiff::new(old_directive, new_directive).diff())
+    paired_directives::<S, _>(old_member, new_member)
+        .filter_map(|(old_directive, new_directive)| {
+            new_directive
+                .map(|new_directive| DirectiveDiff::<S>::new(old_directive, new_directive).diff())
         })
         .flat_map(|changes| changes.into_iter())
 }
-- 
2.43.0


From f46cb6047f43ef5677d4f6a4926c37dcb8f5ed07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:46 +0000
Subject: [PATCH 13/35] fix: removing the default value of a non-null argument
 or input field is breaking

---
 bluejay-schema-comparator/src/changes.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/bluejay-schema-comparator/src/changes.rs b/bluejay-schema-comparator/src/changes.rs
index bcb0507..1556d66 100644
--- a/bluejay-schema-comparator/src/changes.rs
+++ b/bluejay-schema-comparator/src/changes.rs
@@ -292,8 +292,12 @@ impl<'a, S: SchemaDefinition> Change<'a, S> {
             Self::FieldArgumentDescriptionChanged { .. } => {
                 Criticality::safe(None)
             },
-            Self::FieldArgumentDefaultValueChanged { .. } => {
-                Criticality::dangerous(Some(Cow::from("Changing the default value for an argument may change the runtime behaviour of a field if it was never provided.")))
+            Self::FieldArgumentDefaultValueChanged { new_argument_definition: new_argument, .. } => {
+                if new_argument.is_required() {
+                    Criticality::breaking(Some(Cow::from("Removing the default value of a non-null argument is a breaking change because it will cause existing queries that do not provide the argument to error.")))
+                } else {
+                    Criticality::dangerous(Some(Cow::from("Changing the default value for an argument may change the runtime behaviour of a field if it was never provided.")))
+                }
             },
             Self::FieldArgumentTypeChanged{ type_name: _, field_definition: _, old_argument_definition: old_argument, new_argument_definition: new_argument } => {
                 if is_change_safe_for_input_value::<S>(old_argument.r#type().as_shallow_ref(), new_argument.r#type().as_shallow_ref()) {
@@ -343,8 +347,12 @@ impl<'a, S: SchemaDefinition> Change<'a, S> {
             Self::InputFieldDescriptionChanged { .. } => {
                 Criticality::safe(None)
             },
-            Self::InputFieldDefaultValueChanged { .. } => {
-                Criticality::dangerous(Some(Cow::from("Changing the default value for an argument may change the runtime behaviour of a field if it was never provided.")))
+            Self::InputFieldDefaultValueChanged { new_field_definition: new_field, .. } => {
+                if new_field.is_required() {
+                    Criticality::breaking(Some(Cow::from("Removing the default value of a non-null input field is a breaking change because it will cause existing queries that do not provide the field to error.")))
+                } else {
+                    Criticality::dangerous(Some(Cow::from("Changing the default value for an argument may change the runtime behaviour of a field if it was never provided.")))
+                }
             },
             Self::DirectiveDefinitionAdded { .. } => {
                 Criticality::safe(None)
@@ -381,8 +389,12 @@ impl<'a, S: SchemaDefinition> Change<'a, S> {
                     Criticality::breaking(None)
                 }
             },
-            Self::DirectiveDefinitionArgumentDefaultValueChanged { .. } => {
-                Criticality::dangerous(Some(Cow::from("Changing the default value for an argument may change the runtime behaviour of a field if it was never provided.")))
+            Self::DirectiveDefinitionArgumentDefaultValueChanged { new_argument_definition: new_argument, .. } => {
+                if new_argument.is_required() {
+                    Criticality::breaking(Some(Cow::from("Removing the default value of a non-null argument is a breaking change because it will cause existing queries that do not provide the argument to error.")))
+                } else {
+                    Criticality::dangerous(Some(Cow::from("Changing the default value for an argument may change the runtime behaviour of a field if it was never provided.")))
+                }
             },
             Self::DirectiveAdded { .. } => {
                 Criticality::safe(None)
-- 
2.43.0


From 5d6d41e1f15dcd6457dbb8401a418c9363b3792a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:47 +0000
Subject: [PATCH 14/35] fix: adding @oneOf to an input object is breaking

---
 bluejay-schema-comparator/src/changes.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bluejay-schema-comparator/src/changes.rs b/bluejay-schema-comparator/src/changes.rs
index 1556d66..f98d522 100644
--- a/bluejay-schema-comparator/src/changes.rs
+++ b/bluejay-schema-comparator/src/changes.rs
@@ -396,8 +396,12 @@ impl<'a, S: SchemaDefinition> Change<'a, S> {
                     Criticality::dangerous(Some(Cow::from("Changing the default value for an argument may change the runtime behaviour of a field if it was never provided.")))
                 }
             },
-            Self::DirectiveAdded { .. } => {
-                Criticality::safe(None)
+            Self::DirectiveAdded { directive, .. } => {
+                if directive.name() == "oneOf" {
+                    Criticality::breaking(Some(Cow::from("Requiring exactly one field of an input object will cause existing queries that provide several fields to error.")))
+                } else {
+                    Criticality::safe(None)
+                }
             },
             Self::DirectiveRemoved { .. } => {
                 Criticality::breaking(None)
-- 
2.43.0


From 57648b741786dd67903a1d2f033fc095928020a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:54 +0000
Subject: [PATCH 15/35] fix: resolve directives applied to the schema
 definition

---
 .../src/ast/definition/definition_document.rs       | 11 +++++++++++
 .../ast/definition/explicit_schema_definition.rs    | 13 +++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/bluejay-parser/src/ast/definition/definition_document.rs b/bluejay-parser/src/ast/definition/definition_document.rs
index ae337c0..b90fdc7 100644
--- a/bluejay-parser/src/ast/definition/definition_document.rs
+++ b/bluejay-parser/src/ast/definition/definition_document.rs
@@ -716,6 +716,17 @@ impl<'a, C: Context> TryFrom<&'a DefinitionDocument<'a, C>> for SchemaDefinition
             &mut errors,
         );
 
+        definition_document
+            .schema_definitions
+            .iter()
+            .for_each(|schema_definition| {
+                DefinitionDocument::resolve_directive_definitions(
+                    &indexed_directive_definitions,
+                    schema_definition,
+                    &mut errors,
+                )
+            });
+
         if !errors.is_empty() {
             return Err(errors);
         }
diff --git a/bluejay-parser/src/ast/definition/explicit_schema_definition.rs b/bluejay-parser/src/ast/definition/explicit_schema_definition.rs
index 0b59a90..2f783fc 100644
--- a/bluejay-parser/src/ast/definition/explicit_schema_definition.rs
+++ b/bluejay-parser/src/ast/definition/explicit_schema_definition.rs
@@ -4,6 +4,7 @@ use crate::ast::{
 };
 use crate::lexical_token::{Name, PunctuatorType, StringValue};
 use crate::Span;
+use bluejay_core::definition::HasDirectives;
 use bluejay_core::OperationType;
 use std::str::FromStr;
 
@@ -27,10 +28,6 @@ impl<'a, C: Context> ExplicitSchemaDefinition<'a, C> {
         &self.root_operation_type_definitions
     }
 
-    pub(crate) fn directives(&self) -> Option<&Directives<'a, C>> {
-        self.directives.as_ref()
-    }
-
     pub(crate) fn schema_identifier_span(&self) -> &Span {
         &self.schema_identifier_span
     }
@@ -40,6 +37,14 @@ impl<'a, C: Context> ExplicitSchemaDefinition<'a, C> {
     }
 }
 
+impl<'a, C: Context> HasDirectives for ExplicitSchemaDefinition<'a, C> {
+    type Directives = Directives<'a, C>;
+
+    fn directives(&self) -> Option<&Self::Directives> {
+        self.directives.as_ref()
+    }
+}
+
 impl<'a, C: Context> FromTokens<'a> for ExplicitSchemaDefinition<'a, C> {
     fn from_tokens(tokens: &mut impl Tokens<'a>) -> Result<Self, ParseError> {
         let description = tokens.next_if_string_value();
-- 
2.43.0


From d687c32899a5e3f8458e4252df3d18f38fc1a701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:17 +0000
Subject: [PATCH 16/35] fix: list directive definitions applied to the filtered
 schema definition

---
 bluejay-visibility/src/schema_definition.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bluejay-visibility/src/schema_definition.rs b/bluejay-visibility/src/schema_definition.rs
index a937691..e42c41c 100644
--- a/bluejay-visibility/src/schema_definition.rs
+++ b/bluejay-visibility/src/schema_definition.rs
@@ -291,6 +291,16 @@ impl<'a, 'b, S: definition::SchemaDefinition, W: Warden<SchemaDefinition = S>>
                 }
             });
 
+        if let Some(directives) = schema_definition.inner().directives() {
+            directives.iter().for_each(|directive| {
+                if let Some(directive_definition) =
+                    schema_definition.get_directive_definition(directive.name())
+                {
+                    instance.visit_directive_definition(directive_definition);
+                }
+            });
+        }
+
         instance.visit_type_definition(TypeDefinitionReference::Object(schema_definition.query));
 
         if let Some(mutation) = schema_definition.mutation {
-- 
2.43.0


From 69351adcd47a4acdabefef4e9d2ac5da700bb88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:59 +0000
Subject: [PATCH 17/35] fix: pair a surrogate escape only with the escape that
 completes it

---
 bluejay-parser/src/lexer/logos_lexer/string_lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bluejay-parser/src/lexer/logos_lexer/string_lexer.rs b/bluejay-parser/src/lexer/logos_lexer/string_lexer.rs
index cb4575b..1413343 100644
--- a/bluejay-parser/src/lexer/logos_lexer/string_lexer.rs
+++ b/bluejay-parser/src/lexer/logos_lexer/string_lexer.rs
@@ -17,7 +17,7 @@ pub(super) enum Token<'a> {
     FixedWidthEscapedUnicode(Option<char>),
 
     #[regex(
-        r"(?&fixedunicode)(?&fixedunicode)",
+        r"\\u[dD][89a-fA-F](?&hexdigit)(?&hexdigit)(?&fixedunicode)",
         parse_surrogate_pair_escaped_unicode
     )]
     SurrogatePairEscapedUnicode(Result<(char, Option<char>), Span>),
-- 
2.43.0


From 0fa88f644e0b93b4ac635f5d9a32e257afa821bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:59 +0000
Subject: [PATCH 18/35] fix: reject float literals too large for a 64-bit float

---
 bluejay-parser/src/lexer/logos_lexer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bluejay-parser/src/lexer/logos_lexer.rs b/bluejay-parser/src/lexer/logos_lexer.rs
index 9d8e1fa..2e24e71 100644
--- a/bluejay-parser/src/lexer/logos_lexer.rs
+++ b/bluejay-parser/src/lexer/logos_lexer.rs
@@ -119,7 +119,9 @@ fn parse_float<'a>(lexer: &mut logos::Lexer<'a, Token<'a>>) -> Result<f64, LexEr
         lexer
             .slice()
             .parse()
-            .map_err(|_| LexError::FloatValueTooLarge)
+            .ok()
+            .filter(|value: &f64| value.is_finite())
+            .ok_or(LexError::FloatValueTooLarge)
     })
 }
 
-- 
2.43.0


From d43f7b17545531185308a7bf40b7c2372585cb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:59 +0000
Subject: [PATCH 19/35] fix: only ASCII digits make numbers

---
 bluejay-parser/src/lexer/logos_lexer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bluejay-parser/src/lexer/logos_lexer.rs b/bluejay-parser/src/lexer/logos_lexer.rs
index 2e24e71..690151f 100644
--- a/bluejay-parser/src/lexer/logos_lexer.rs
+++ b/bluejay-parser/src/lexer/logos_lexer.rs
@@ -15,9 +15,9 @@ pub(crate) struct Extras {
 }
 
 #[derive(Logos, Debug, PartialEq)]
-#[logos(subpattern intpart = r"-?(?:0|[1-9]\d*)")]
-#[logos(subpattern decimalpart = r"\.\d+")]
-#[logos(subpattern exponentpart = r"[eE][+-]?\d+")]
+#[logos(subpattern intpart = r"-?(?:0|[1-9][0-9]*)")]
+#[logos(subpattern decimalpart = r"\.[0-9]+")]
+#[logos(subpattern exponentpart = r"[eE][+-]?[0-9]+")]
 #[logos(subpattern hexdigit = r"[0-9A-Fa-f]")]
 #[logos(subpattern fixedunicode = r"\\u[0-9A-Fa-f]{4}")]
 #[logos(error = LexError)]
-- 
2.43.0


From 4acc08f8350467dd338ace885b2d082ab57a1e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:02 +0000
Subject: [PATCH 20/35] fix: allow ignored tokens between $ and the name of a
 variable

---
 bluejay-parser/src/lexer/logos_lexer.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/bluejay-parser/src/lexer/logos_lexer.rs b/bluejay-parser/src/lexer/logos_lexer.rs
index 690151f..3f12aba 100644
--- a/bluejay-parser/src/lexer/logos_lexer.rs
+++ b/bluejay-parser/src/lexer/logos_lexer.rs
@@ -54,7 +54,10 @@ pub(crate) enum Token<'a> {
     Pipe,
 
     // VariableName
-    #[regex(r"\$[_a-zA-Z][_0-9a-zA-Z]*", |lex| &lex.slice()[1..])]
+    #[regex(
+        r"\$(?:[\uFEFF\t \n\r,]|#[^\n\r]*[\n\r])*[_a-zA-Z][_0-9a-zA-Z]*",
+        parse_variable_name
+    )]
     VariableName(&'a str),
 
     // Name
@@ -103,6 +106,16 @@ fn validate_number_no_trailing_name_start<'a>(
     }
 }
 
+/// The `$` and the name are tokens of their own, ignored tokens may stand between them
+#[inline]
+fn parse_variable_name<'a>(lexer: &mut logos::Lexer<'a, Token<'a>>) -> &'a str {
+    lexer
+        .slice()
+        .rsplit(|c: char| !(c.is_ascii_alphanumeric() || c == '_'))
+        .next()
+        .unwrap_or_default()
+}
+
 #[inline]
 fn parse_integer<'a>(lexer: &mut logos::Lexer<'a, Token<'a>>) -> Result<i32, LexError> {
     validate_number_no_trailing_name_start(lexer).and_then(|_| {
-- 
2.43.0


From d00cd17931ae2892e1ab2549a366b3b9cee3c8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:04 +0000
Subject: [PATCH 21/35] fix: accept any number of leading zeros in a braced
 unicode escape

---
 bluejay-parser/src/lexer/logos_lexer/string_lexer.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/bluejay-parser/src/lexer/logos_lexer/string_lexer.rs b/bluejay-parser/src/lexer/logos_lexer/string_lexer.rs
index 1413343..ee75572 100644
--- a/bluejay-parser/src/lexer/logos_lexer/string_lexer.rs
+++ b/bluejay-parser/src/lexer/logos_lexer/string_lexer.rs
@@ -60,11 +60,9 @@ pub(super) enum Token<'a> {
 }
 
 fn parse_escaped_unicode<'a>(lexer: &mut Lexer<'a, Token<'a>>) -> Option<char> {
-    (lexer.slice().len() < 13).then_some(()).and_then(|_| {
-        u32::from_str_radix(&lexer.slice()[3..lexer.slice().len() - 1], 16)
-            .ok()
-            .and_then(char::from_u32)
-    })
+    u32::from_str_radix(&lexer.slice()[3..lexer.slice().len() - 1], 16)
+        .ok()
+        .and_then(char::from_u32)
 }
 
 fn parse_fixed_width_escaped_unicode<'a>(lexer: &mut Lexer<'a, Token<'a>>) -> Option<char> {
-- 
2.43.0


From 6504305e7c8c70bfbff8a31bdbf970e3b0d3222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:08 +0000
Subject: [PATCH 22/35] fix: count only GraphQL line terminators in error
 locations

---
 bluejay-parser/src/error/format_errors.rs | 29 +++++++++++++++++------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/bluejay-parser/src/error/format_errors.rs b/bluejay-parser/src/error/format_errors.rs
index 3278f54..a92e24c 100644
--- a/bluejay-parser/src/error/format_errors.rs
+++ b/bluejay-parser/src/error/format_errors.rs
@@ -1,5 +1,3 @@
-use ariadne::Source;
-
 struct Index {
     byte: usize,
     char: usize,
@@ -46,23 +44,40 @@ impl<'a> ByteIndexToCharIndex<'a> {
 
 pub struct SpanToLocation<'a> {
     byte_idx_to_char_idx: ByteIndexToCharIndex<'a>,
-    source: Source<&'a str>,
+    /// Char index of the start of each line. Only the GraphQL line terminators end a line,
+    /// `ariadne` also breaks lines at other Unicode characters.
+    line_starts: Vec<usize>,
 }
 
 impl<'a> SpanToLocation<'a> {
     pub fn new(s: &'a str) -> Self {
+        let mut line_starts = vec![0];
+        let mut chars = s.chars().enumerate().peekable();
+        while let Some((idx, c)) = chars.next() {
+            let ends_line = match c {
+                '\n' => true,
+                '\r' => !matches!(chars.peek(), Some((_, '\n'))),
+                _ => false,
+            };
+            if ends_line {
+                line_starts.push(idx + 1);
+            }
+        }
         Self {
             byte_idx_to_char_idx: ByteIndexToCharIndex::new(s),
-            source: Source::from(s),
+            line_starts,
         }
     }
 
     pub fn convert(&mut self, span: &crate::Span) -> Option<(usize, usize)> {
         let span = span.byte_range();
         let start = self.byte_idx_to_char_idx.convert(span.start);
-        self.source
-            .get_offset_line(start)
-            .map(|(_, line, col)| (line + 1, col + 1))
+        let line = self
+            .line_starts
+            .partition_point(|line_start| *line_start <= start);
+        self.line_starts
+            .get(line - 1)
+            .map(|line_start| (line, start - line_start + 1))
     }
 }
 
-- 
2.43.0


From e98c3c7da424d9ca61014fa7750daba3192f4a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:40 +0000
Subject: [PATCH 23/35] fix: list errors that have no place in the text among
 the GraphQL errors

---
 bluejay-parser/src/error.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bluejay-parser/src/error.rs b/bluejay-parser/src/error.rs
index 265e6b3..190ca7d 100644
--- a/bluejay-parser/src/error.rs
+++ b/bluejay-parser/src/error.rs
@@ -64,6 +64,11 @@ impl Error {
                         message: primary_annotation.message,
                         locations: vec![Location { line, col }],
                     }))
+                } else if err.secondary_annotations.is_empty() {
+                    Either::Left(std::iter::once(GraphQLError {
+                        message: err.message,
+                        locations: Vec::new(),
+                    }))
                 } else {
                     Either::Right(err.secondary_annotations.into_iter().map(
                         |secondary_annotation| {
-- 
2.43.0


From 3fe56d905dbfda5ec0c0b8ddf8170c22ee3b4ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:23 +0000
Subject: [PATCH 24/35] fix: print the directives of fragment definitions

---
 .../src/executable/fragment_definition.rs           | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/bluejay-printer/src/executable/fragment_definition.rs b/bluejay-printer/src/executable/fragment_definition.rs
index f5542b7..a2ca018 100644
--- a/bluejay-printer/src/executable/fragment_definition.rs
+++ b/bluejay-printer/src/executable/fragment_definition.rs
@@ -1,4 +1,4 @@
-use crate::executable::SelectionSetPrinter;
+use crate::{directive::DirectivesPrinter, executable::SelectionSetPrinter};
 use bluejay_core::executable::FragmentDefinition;
 use std::fmt::{Display, Formatter, Result};
 
@@ -21,9 +21,18 @@ impl<'a, T: FragmentDefinition> Display for FragmentDefinitionPrinter<'a, T> {
         } = *self;
         write!(
             f,
-            "fragment {} on {} {}",
+            "fragment {} on {}",
             fragment_definition.name(),
             fragment_definition.type_condition(),
+        )?;
+
+        if let Some(directives) = fragment_definition.directives() {
+            write!(f, "{}", DirectivesPrinter::new(directives))?;
+        }
+
+        write!(
+            f,
+            " {}",
             SelectionSetPrinter::new(fragment_definition.selection_set(), 0),
         )
     }
-- 
2.43.0


From 3c050d8716265cc474d82657634a3783ca87d7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:23 +0000
Subject: [PATCH 25/35] fix: print floats without losing precision

---
 bluejay-printer/src/value.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/bluejay-printer/src/value.rs b/bluejay-printer/src/value.rs
index 26a2ae3..48265b0 100644
--- a/bluejay-printer/src/value.rs
+++ b/bluejay-printer/src/value.rs
@@ -20,13 +20,8 @@ impl<'a, const CONST: bool, V: Value<CONST>> Display for ValuePrinter<'a, CONST,
         match value.as_ref() {
             ValueReference::Boolean(b) => write!(f, "{}", b),
             ValueReference::Enum(e) => write!(f, "{}", e),
-            ValueReference::Float(fl) => {
-                if fl.fract().abs() < 1e-10 {
-                    write!(f, "{fl:.1}")
-                } else {
-                    write!(f, "{fl}")
-                }
-            }
+            // the debug format always has a fractional or exponent part and loses no precision
+            ValueReference::Float(fl) => write!(f, "{fl:?}"),
             ValueReference::Integer(i) => write!(f, "{}", i),
             ValueReference::List(l) => {
                 write!(f, "[")?;
-- 
2.43.0


From 1eb65e741c61c84bc2f2e6acda4cfe70aafacba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:23 +0000
Subject: [PATCH 26/35] fix: print descriptions that a block string cannot
 represent as quoted strings

---
 bluejay-printer/src/string_value.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/bluejay-printer/src/string_value.rs b/bluejay-printer/src/string_value.rs
index a5aba3f..b077921 100644
--- a/bluejay-printer/src/string_value.rs
+++ b/bluejay-printer/src/string_value.rs
@@ -35,12 +35,36 @@ impl<'a> BlockStringValuePrinter<'a> {
     pub(crate) fn new(value: &'a str, indentation: usize) -> Self {
         Self { value, indentation }
     }
+
+    /// Parsing a block string normalizes line terminators, and removes common indentation and
+    /// leading and trailing blank lines, so a value that has any of these cannot be printed as one.
+    fn is_block_printable(value: &str) -> bool {
+        fn is_blank(line: &str) -> bool {
+            line.chars().all(|c| matches!(c, ' ' | '\t'))
+        }
+
+        if value.is_empty() {
+            return true;
+        }
+
+        let lines = || value.split('\n');
+
+        !value.contains('\r')
+            && !lines().next().is_some_and(is_blank)
+            && !lines().next_back().is_some_and(is_blank)
+            && lines().any(|line| !is_blank(line) && !line.starts_with([' ', '\t']))
+    }
 }
 
 impl<'a> Display for BlockStringValuePrinter<'a> {
     fn fmt(&self, f: &mut Formatter<'_>) -> Result {
         let Self { value, indentation } = *self;
         write_indent(f, indentation)?;
+
+        if !Self::is_block_printable(value) {
+            return writeln!(f, "{}", StringValuePrinter::new(value));
+        }
+
         writeln!(f, "\"\"\"")?;
 
         let escaped = value.replace("\"\"\"", "\\\"\"\"");
-- 
2.43.0


From 625811e8ba4ee8c8dcd647fcd018dda33e300d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:14 +0000
Subject: [PATCH 27/35] fix: print the schema definition when a root operation
 type would be assumed by name

---
 bluejay-printer/src/definition/schema_definition.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bluejay-printer/src/definition/schema_definition.rs b/bluejay-printer/src/definition/schema_definition.rs
index 570fdfd..aa0a753 100644
--- a/bluejay-printer/src/definition/schema_definition.rs
+++ b/bluejay-printer/src/definition/schema_definition.rs
@@ -36,11 +36,15 @@ impl<'a, S: SchemaDefinition> SchemaDefinitionPrinter<'a, S> {
             && schema_definition
                 .mutation()
                 .map(|mutation| mutation.name() == "Mutation")
-                .unwrap_or(true)
+                .unwrap_or_else(|| schema_definition.get_type_definition("Mutation").is_none())
             && schema_definition
                 .subscription()
                 .map(|subscription| subscription.name() == "Subscription")
-                .unwrap_or(true)
+                .unwrap_or_else(|| {
+                    schema_definition
+                        .get_type_definition("Subscription")
+                        .is_none()
+                })
             && schema_definition
                 .directives()
                 .map(AsIter::is_empty)
-- 
2.43.0


From 7b2a19d50c6574c0efbde1d50ee228b451bf4509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:59 +0000
Subject: [PATCH 28/35] fix: do not panic computing the cost of selections
 under a leaf field without cost

---
 .../executable/operation/analyzers/complexity_cost.rs  | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs b/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs
index 50f3b5b..9e230d1 100644
--- a/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs
+++ b/bluejay-validator/src/executable/operation/analyzers/complexity_cost.rs
@@ -93,14 +93,18 @@ impl<
         // https://docs.rs/indextree/latest/indextree/#arena-based-tree-data-structure
         let next_index = self.scopes_arena.next_id();
 
-        // Get a mutable reference to the parent scope in the traversal stack
-        let parent_scope = self
+        // Get a mutable reference to the parent scope in the traversal stack.
+        // There is none for selections (invalid ones) under a leaf field without cost.
+        let Some(parent_scope) = self
             .scopes_stack
             .last()
             .copied()
             .flatten()
             .and_then(|index| self.scopes_arena.get_mut(index))
-            .expect("expected a parent complexity scope");
+        else {
+            self.scopes_stack.push(None);
+            return;
+        };
 
         // Collect any multipliers that the parent scope specifies for this field
         // ie: connection > edges/nodes
-- 
2.43.0


From cf6083ece26bc4f834e3d46f1fa325acb28edc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:01 +0000
Subject: [PATCH 29/35] fix: do not clash with fields named out and k in types
 generated for miniserde

---
 .../executable_definition/executable_enum_builder.rs   |  6 +++---
 .../executable_definition/executable_struct_builder.rs | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/bluejay-typegen-macro/src/executable_definition/executable_enum_builder.rs b/bluejay-typegen-macro/src/executable_definition/executable_enum_builder.rs
index 5cf04a6..e9c0342 100644
--- a/bluejay-typegen-macro/src/executable_definition/executable_enum_builder.rs
+++ b/bluejay-typegen-macro/src/executable_definition/executable_enum_builder.rs
@@ -204,7 +204,7 @@ impl<'a, S: SchemaDefinition> ExecutableEnumBuilder<'a, S> {
 
                     parse_quote! {
                         #builder_state_ident::#variant_ident { #(#field_idents,)* } => {
-                            match k {
+                            match __k {
                                 #(#field_serialized_as => ::std::result::Result::Ok(::bluejay_typegen::miniserde::de::Deserialize::begin(#field_idents)),)*
                                 _ => ::std::result::Result::Err(::bluejay_typegen::miniserde::Error)
                             }
@@ -283,12 +283,12 @@ impl<'a, S: SchemaDefinition> ExecutableEnumBuilder<'a, S> {
                     }
 
                     impl<'a> ::bluejay_typegen::miniserde::de::Map for #builder_ident<'a> {
-                        fn key(&mut self, k: &::std::primitive::str) -> ::bluejay_typegen::miniserde::Result<&mut dyn ::bluejay_typegen::miniserde::de::Visitor> {
+                        fn key(&mut self, __k: &::std::primitive::str) -> ::bluejay_typegen::miniserde::Result<&mut dyn ::bluejay_typegen::miniserde::de::Visitor> {
                             if let ::std::option::Option::Some(ref mut state) = self.state {
                                 match state {
                                     #(#state_key_arm,)*
                                 }
-                            } else if k == "__typename" {
+                            } else if __k == "__typename" {
                                 ::std::result::Result::Ok(::bluejay_typegen::miniserde::de::Deserialize::begin(&mut self.state))
                             } else {
                                 ::std::result::Result::Err(::bluejay_typegen::miniserde::Error)
diff --git a/bluejay-typegen-macro/src/executable_definition/executable_struct_builder.rs b/bluejay-typegen-macro/src/executable_definition/executable_struct_builder.rs
index 0d4b231..642c97b 100644
--- a/bluejay-typegen-macro/src/executable_definition/executable_struct_builder.rs
+++ b/bluejay-typegen-macro/src/executable_definition/executable_struct_builder.rs
@@ -140,12 +140,12 @@ impl<'a, S: SchemaDefinition> ExecutableStructBuilder<'a, S> {
 
                     struct #builder_ident<'a> {
                         #(#builder_fields,)*
-                        out: &'a mut ::std::option::Option<#name_ident>,
+                        __out: &'a mut ::std::option::Option<#name_ident>,
                     }
 
                     impl<'a> ::bluejay_typegen::miniserde::de::Map for #builder_ident<'a> {
-                        fn key(&mut self, k: &::std::primitive::str) -> ::bluejay_typegen::miniserde::Result<&mut dyn ::bluejay_typegen::miniserde::de::Visitor> {
-                            match k {
+                        fn key(&mut self, __k: &::std::primitive::str) -> ::bluejay_typegen::miniserde::Result<&mut dyn ::bluejay_typegen::miniserde::de::Visitor> {
+                            match __k {
                                 #(#field_serialized_as => ::std::result::Result::Ok(::bluejay_typegen::miniserde::de::Deserialize::begin(&mut self.#field_idents)),)*
                                 _ => ::std::result::Result::Ok(<dyn ::bluejay_typegen::miniserde::de::Visitor>::ignore()),
                             }
@@ -153,7 +153,7 @@ impl<'a, S: SchemaDefinition> ExecutableStructBuilder<'a, S> {
 
                         fn finish(&mut self) -> ::bluejay_typegen::miniserde::Result<()> {
                             #(let #field_idents = self.#field_idents.take().ok_or(::bluejay_typegen::miniserde::Error)?;)*
-                            *self.out = ::std::option::Option::Some(#name_ident { #(#field_idents,)* });
+                            *self.__out = ::std::option::Option::Some(#name_ident { #(#field_idents,)* });
                             ::std::result::Result::Ok(())
                         }
                     }
@@ -162,7 +162,7 @@ impl<'a, S: SchemaDefinition> ExecutableStructBuilder<'a, S> {
                         fn map(&mut self) -> ::bluejay_typegen::miniserde::Result<::std::boxed::Box<dyn ::bluejay_typegen::miniserde::de::Map + '_>> {
                             ::std::result::Result::Ok(::std::boxed::Box::new(#builder_ident {
                                 #(#field_idents: ::std::option::Option::None,)*
-                                out: &mut self.out,
+                                __out: &mut self.out,
                             }))
                         }
                     }
-- 
2.43.0


From 2bc836c17aed7a00a9f0f193d44b15119d3f12c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:32 +0000
Subject: [PATCH 30/35] fix: decode unions whose inline fragments select
 __typename

---
 .../executable_definition/intermediate_representation.rs  | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs b/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
index e5e9168..eb0619a 100644
--- a/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
+++ b/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
@@ -460,15 +460,17 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> ExecutableDocumentToExecuta
                                     fields: inline_fragment
                                         .selection_set()
                                         .iter()
-                                        .map(|selection| match selection.as_ref() {
+                                        .filter_map(|selection| match selection.as_ref() {
+                                            // the variant itself already identifies the type
+                                            SelectionReference::Field(field) if field.response_name() == "__typename" => None,
                                             SelectionReference::Field(field) => {
-                                                self.build_field(
+                                                Some(self.build_field(
                                                     field,
                                                     target_type
                                                         .fields_definition()
                                                         .get(field.name())
                                                         .expect("Field not found"),
-                                                )
+                                                ))
                                             }
                                             SelectionReference::InlineFragment(_)
                                             | SelectionReference::FragmentSpread(_) => {
-- 
2.43.0


From 8dfa6a7a9a8a0e01653521d09082d2a9203fe448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:25 +0000
Subject: [PATCH 31/35] fix: do not panic generating types for names that
 become self, Self, super or crate

---
 bluejay-typegen-macro/src/names.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/bluejay-typegen-macro/src/names.rs b/bluejay-typegen-macro/src/names.rs
index 46f07ab..b16e6ba 100644
--- a/bluejay-typegen-macro/src/names.rs
+++ b/bluejay-typegen-macro/src/names.rs
@@ -38,12 +38,14 @@ pub(crate) fn module_ident(graphql_name: &str) -> Ident {
 
 fn to_ident(name: &str) -> Ident {
     match name {
-        "as" | "break" | "const" | "continue" | "crate" | "else" | "enum" | "extern" | "false"
-        | "fn" | "for" | "if" | "impl" | "in" | "let" | "loop" | "match" | "mod" | "move"
-        | "mut" | "pub" | "ref" | "return" | "self" | "Self" | "static" | "struct" | "super"
-        | "trait" | "true" | "type" | "unsafe" | "use" | "where" | "while" | "async" | "await"
-        | "dyn" | "abstract" | "become" | "box" | "do" | "final" | "macro" | "override"
-        | "priv" | "typeof" | "unsized" | "virtual" | "yield" | "try" | "union" => {
+        // these cannot be raw identifiers
+        "crate" | "self" | "Self" | "super" => format_ident!("{}_", name),
+        "as" | "break" | "const" | "continue" | "else" | "enum" | "extern" | "false" | "fn"
+        | "for" | "if" | "impl" | "in" | "let" | "loop" | "match" | "mod" | "move" | "mut"
+        | "pub" | "ref" | "return" | "static" | "struct" | "trait" | "true" | "type" | "unsafe"
+        | "use" | "where" | "while" | "async" | "await" | "dyn" | "abstract" | "become" | "box"
+        | "do" | "final" | "macro" | "override" | "priv" | "typeof" | "unsized" | "virtual"
+        | "yield" | "try" | "union" => {
             format_ident!("r#{}", name)
         }
         _ => format_ident!("{}", name),
-- 
2.43.0


From 2fff35437fe4a29c01170a1445857c4e5ff739c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:02 +0000
Subject: [PATCH 32/35] fix: generate types for operations and fragments that
 only spread a fragment

---
 .../executable_field_builder.rs               |  3 +-
 .../executable_type_builder.rs                | 14 ++++++
 .../intermediate_representation.rs            | 43 ++++++++++++++++---
 3 files changed, 54 insertions(+), 6 deletions(-)

diff --git a/bluejay-typegen-macro/src/executable_definition/executable_field_builder.rs b/bluejay-typegen-macro/src/executable_definition/executable_field_builder.rs
index a979225..58710be 100644
--- a/bluejay-typegen-macro/src/executable_definition/executable_field_builder.rs
+++ b/bluejay-typegen-macro/src/executable_definition/executable_field_builder.rs
@@ -110,7 +110,8 @@ impl<'a, S: SchemaDefinition> ExecutableFieldBuilder<'a, S> {
                 ExecutableType::BuiltinScalar { bstd, .. } => {
                     builtin_scalar_type(*bstd, self.config)
                 }
-                ExecutableType::FragmentDefinitionReference { name, borrows } => {
+                ExecutableType::FragmentDefinitionReference { name, borrows }
+                | ExecutableType::FragmentDefinitionAlias { name, borrows, .. } => {
                     let prefix = self.prefix_for_executable_document_module();
                     let type_ident = type_ident(name);
                     let lifetime: Option<syn::Generics> = borrows.then(|| parse_quote! { <'a> });
diff --git a/bluejay-typegen-macro/src/executable_definition/executable_type_builder.rs b/bluejay-typegen-macro/src/executable_definition/executable_type_builder.rs
index 49b55d7..3fdb901 100644
--- a/bluejay-typegen-macro/src/executable_definition/executable_type_builder.rs
+++ b/bluejay-typegen-macro/src/executable_definition/executable_type_builder.rs
@@ -1,8 +1,10 @@
 use crate::{
     executable_definition::{ExecutableEnumBuilder, ExecutableStructBuilder, ExecutableType},
+    names::type_ident,
     Config,
 };
 use bluejay_core::definition::SchemaDefinition;
+use syn::parse_quote;
 
 pub(crate) struct ExecutableTypeBuilder;
 
@@ -15,6 +17,18 @@ impl ExecutableTypeBuilder {
         match executable_type {
             ExecutableType::Struct(es) => ExecutableStructBuilder::build(es, config, depth),
             ExecutableType::Enum(ee) => ExecutableEnumBuilder::build(ee, config, depth),
+            ExecutableType::FragmentDefinitionAlias {
+                name,
+                target,
+                borrows,
+            } => {
+                let name_ident = type_ident(name);
+                let target_ident = type_ident(target);
+                let lifetime: Option<syn::Generics> = borrows.then(|| parse_quote! { <'a> });
+                vec![parse_quote! {
+                    pub type #name_ident #lifetime = #target_ident #lifetime;
+                }]
+            }
             ExecutableType::FragmentDefinitionReference { .. }
             | ExecutableType::Leaf { .. }
             | ExecutableType::BuiltinScalar { .. } => Vec::new(),
diff --git a/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs b/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
index eb0619a..5a167d8 100644
--- a/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
+++ b/bluejay-typegen-macro/src/executable_definition/intermediate_representation.rs
@@ -24,6 +24,13 @@ pub(crate) enum ExecutableType<'a> {
     /// Note: the `borrows` field may incorrectly be false during construction, but
     /// will be updated later
     FragmentDefinitionReference { name: &'a str, borrows: bool },
+    /// An operation or fragment definition that only spreads a fragment, see `FragmentDefinitionReference`
+    /// for the meaning of `borrows`
+    FragmentDefinitionAlias {
+        name: &'a str,
+        target: &'a str,
+        borrows: bool,
+    },
     BuiltinScalar {
         bstd: BuiltinScalarDefinition,
         borrows: bool,
@@ -70,6 +77,11 @@ impl<'a> ExecutableType<'a> {
             Self::FragmentDefinitionReference { name, borrows } => {
                 *borrows = fragment_definitions_contains_reference_types[name];
             }
+            Self::FragmentDefinitionAlias {
+                target, borrows, ..
+            } => {
+                *borrows = fragment_definitions_contains_reference_types[target];
+            }
             Self::Leaf { .. } | Self::BuiltinScalar { .. } => {}
         }
     }
@@ -79,6 +91,7 @@ impl<'a> ExecutableType<'a> {
             Self::Leaf { borrows, .. } => *borrows,
             Self::BuiltinScalar { borrows, .. } => *borrows,
             Self::FragmentDefinitionReference { borrows, .. } => *borrows,
+            Self::FragmentDefinitionAlias { borrows, .. } => *borrows,
             Self::Struct(es) => es.borrows(),
             Self::Enum(ee) => ee.borrows(),
         }
@@ -227,12 +240,12 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> ExecutableDocumentToExecuta
                 .subscription()
                 .expect("Unsupported operation type used"),
         };
-        self.build_base_type(
+        self.build_definition_type(
             operation_definition
                 .as_ref()
                 .name()
                 .unwrap_or(ANONYMOUS_OPERATION_STRUCT_NAME),
-            Some(operation_definition.as_ref().selection_set()),
+            operation_definition.as_ref().selection_set(),
             BaseOutputTypeReference::Object(object_type_definition),
         )
     }
@@ -246,15 +259,34 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> ExecutableDocumentToExecuta
             .schema_definition()
             .get_type_definition(fragment_definition.type_condition())
             .expect("Fragment type condition not found");
-        self.build_base_type(
+        self.build_definition_type(
             fragment_definition.name(),
-            Some(fragment_definition.selection_set()),
+            fragment_definition.selection_set(),
             target_type
                 .try_into()
                 .expect("Fragment type not an output type"),
         )
     }
 
+    fn build_definition_type(
+        &self,
+        name: &'a str,
+        selection_set: &'a E::SelectionSet,
+        base_output_type: BaseOutputTypeReference<'a, S::OutputType>,
+    ) -> ExecutableType<'a> {
+        match self.build_base_type(name, Some(selection_set), base_output_type) {
+            ExecutableType::FragmentDefinitionReference {
+                name: target,
+                borrows,
+            } => ExecutableType::FragmentDefinitionAlias {
+                name,
+                target,
+                borrows,
+            },
+            executable_type => executable_type,
+        }
+    }
+
     fn fields_or_fragment_spread(
         &self,
         selection_set: &'a E::SelectionSet,
@@ -512,7 +544,8 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> ExecutableDocumentToExecuta
                     )
                 })
             }),
-            ExecutableType::FragmentDefinitionReference { name, .. } => {
+            ExecutableType::FragmentDefinitionReference { name, .. }
+            | ExecutableType::FragmentDefinitionAlias { target: name, .. } => {
                 // cannot rely on the `borrows` value in the `FragmentDefinitionReference` yet
                 if visited_fragment_definitions.insert(name) {
                     Self::type_borrows(
-- 
2.43.0


From ffcd0924604840b707bce09e01a2ea32a64f0546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:10 +0000
Subject: [PATCH 33/35] fix: a type named Query that is not the query root does
 not get __schema and __type

---
 bluejay-parser/src/ast/definition/definition_document.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bluejay-parser/src/ast/definition/definition_document.rs b/bluejay-parser/src/ast/definition/definition_document.rs
index b90fdc7..734f7c9 100644
--- a/bluejay-parser/src/ast/definition/definition_document.rs
+++ b/bluejay-parser/src/ast/definition/definition_document.rs
@@ -233,13 +233,16 @@ impl<'a, C: Context> DefinitionDocument<'a, C> {
                         .map(|rotd| rotd.name())
                 }),
         );
+        let is_implicit_schema = self.schema_definitions.is_empty();
 
         self.type_definitions
             .iter_mut()
             .for_each(|type_definition| {
                 if let TypeDefinition::Object(otd) = type_definition {
                     let name = otd.name().as_ref();
-                    if name == "Query" || explicit_query_roots.contains(name) {
+                    if (is_implicit_schema && name == "Query")
+                        || explicit_query_roots.contains(name)
+                    {
                         otd.add_query_root_fields();
                     }
                 }
-- 
2.43.0


From d2ae8d2178fed1d784d10a1a430e4aaefd93f76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:02 +0000
Subject: [PATCH 34/35] fix: refuse fragment spreads on unions that do not
 apply to every member

---
 bluejay-typegen-macro/src/lib.rs              |  3 +-
 bluejay-typegen-macro/src/validation/error.rs | 11 ++++
 .../src/validation/selections_are_valid.rs    | 51 +++++++++++++++++--
 3 files changed, 60 insertions(+), 5 deletions(-)

diff --git a/bluejay-typegen-macro/src/lib.rs b/bluejay-typegen-macro/src/lib.rs
index d93a71b..b6a0ec2 100644
--- a/bluejay-typegen-macro/src/lib.rs
+++ b/bluejay-typegen-macro/src/lib.rs
@@ -341,7 +341,8 @@ fn map_parser_errors<E: Into<ParserError>>(
 /// * Selection sets on object and interface types must contain either a single fragment spread, or entirely field
 ///   selections.
 /// * Selection sets on union types must contain either a single fragment spread, or both an unaliased `__typename`
-///   selection and inline fragments for all or a subset of the objects contained in the union.
+///   selection and inline fragments for all or a subset of the objects contained in the union. A fragment spread must
+///   target either the union or a type that includes all of its members.
 ///
 /// ### Example
 /// See top-level documentation of `bluejay-typegen` for an example.
diff --git a/bluejay-typegen-macro/src/validation/error.rs b/bluejay-typegen-macro/src/validation/error.rs
index 57d5634..a41dfbf 100644
--- a/bluejay-typegen-macro/src/validation/error.rs
+++ b/bluejay-typegen-macro/src/validation/error.rs
@@ -37,6 +37,9 @@ pub(crate) enum Error<'a, E: ExecutableDocument, S: SchemaDefinition> {
     FragmentSpreadOnInterfaceInvalidTarget {
         fragment_spread: &'a E::FragmentSpread,
     },
+    FragmentSpreadOnUnionInvalidTarget {
+        fragment_spread: &'a E::FragmentSpread,
+    },
     FragmentAndOperationNamesClash {
         operation_definition: &'a E::OperationDefinition,
         fragment_definition: &'a E::FragmentDefinition,
@@ -127,6 +130,14 @@ impl<'a, S: SchemaDefinition> From<Error<'a, ParserExecutableDocument<'a>, S>> f
                 )),
                 Vec::new(),
             ),
+            Error::FragmentSpreadOnUnionInvalidTarget { fragment_spread } => Self::new(
+                format!("{CRATE_NAME} requires fragment spreads on unions to target either the union or a type that includes all of its members"),
+                Some(Annotation::new(
+                    "Fragment spread on union type",
+                    fragment_spread.span().clone(),
+                )),
+                Vec::new(),
+            ),
             Error::FragmentAndOperationNamesClash { operation_definition, fragment_definition } => Self::new(
                 format!("{CRATE_NAME} requires fragment and operation names to be unique, but encountered a clash with name `{}`", fragment_definition.name().as_ref()),
                 Some(Annotation::new(
diff --git a/bluejay-typegen-macro/src/validation/selections_are_valid.rs b/bluejay-typegen-macro/src/validation/selections_are_valid.rs
index cb7d7e3..bb8f144 100644
--- a/bluejay-typegen-macro/src/validation/selections_are_valid.rs
+++ b/bluejay-typegen-macro/src/validation/selections_are_valid.rs
@@ -1,8 +1,8 @@
 use crate::validation::Error;
 use bluejay_core::{
     definition::{
-        InterfaceImplementation, InterfaceTypeDefinition, SchemaDefinition,
-        TypeDefinitionReference, UnionMemberTypes, UnionTypeDefinition,
+        InterfaceImplementation, InterfaceTypeDefinition, ObjectTypeDefinition, SchemaDefinition,
+        TypeDefinitionReference, UnionMemberType, UnionMemberTypes, UnionTypeDefinition,
     },
     executable::{
         ExecutableDocument, Field, FragmentDefinition, FragmentSpread, InlineFragment, Selection,
@@ -19,15 +19,17 @@ use itertools::{Either, Itertools};
 pub(crate) struct SelectionsAreValid<'a, E: ExecutableDocument + 'a, S: SchemaDefinition + 'a> {
     errors: Vec<Error<'a, E, S>>,
     cache: &'a Cache<'a, E, S>,
+    schema_definition: &'a S,
 }
 
 impl<'a, E: ExecutableDocument, S: SchemaDefinition> Visitor<'a, E, S>
     for SelectionsAreValid<'a, E, S>
 {
-    fn new(_: &'a E, _: &'a S, cache: &'a Cache<'a, E, S>) -> Self {
+    fn new(_: &'a E, schema_definition: &'a S, cache: &'a Cache<'a, E, S>) -> Self {
         Self {
             errors: Vec::new(),
             cache,
+            schema_definition,
         }
     }
 
@@ -148,7 +150,20 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> SelectionsAreValid<'a, E, S
         union_type_definition: &'a S::UnionTypeDefinition,
     ) {
         match self.isolated_fragment_spread(selection_set) {
-            Ok(Some(_)) => {
+            Ok(Some(fragment_spread)) => {
+                // As with interfaces, the generated type assumes that the fragment spread is always present,
+                // so the fragment must apply to every member of the union.
+                let type_condition = self
+                    .cache
+                    .fragment_definition(fragment_spread.name())
+                    .unwrap()
+                    .type_condition();
+                if type_condition != union_type_definition.name()
+                    && !self.includes_all_members(type_condition, union_type_definition)
+                {
+                    self.errors
+                        .push(Error::FragmentSpreadOnUnionInvalidTarget { fragment_spread });
+                }
                 return;
             }
             Ok(None) => {}
@@ -212,6 +227,34 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> SelectionsAreValid<'a, E, S
         );
     }
 
+    /// Returns whether the type with the given name always applies when the union does
+    fn includes_all_members(
+        &self,
+        type_name: &str,
+        union_type_definition: &'a S::UnionTypeDefinition,
+    ) -> bool {
+        let type_definition = self.schema_definition.get_type_definition(type_name);
+
+        union_type_definition
+            .union_member_types()
+            .iter()
+            .all(|member| match type_definition {
+                Some(TypeDefinitionReference::Object(otd)) => otd.name() == member.name(),
+                Some(TypeDefinitionReference::Interface(itd)) => member
+                    .member_type(self.schema_definition)
+                    .interface_implementations()
+                    .map_or(false, |interface_implementations| {
+                        interface_implementations
+                            .iter()
+                            .any(|implementation| implementation.name() == itd.name())
+                    }),
+                Some(TypeDefinitionReference::Union(utd)) => {
+                    utd.union_member_types().contains_type(member.name())
+                }
+                _ => false,
+            })
+    }
+
     /// Returns a 2-tuple
     /// - first element: an option including a field if that field is the first selection in the set and is named `__typename` without an alias
     /// - second element: a vector of all other fields in the selection set
-- 
2.43.0


From 3dc84d528884192d4565a2d539314a3cb9237a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:14 +0000
Subject: [PATCH 35/35] fix: refuse inline fragments on unions that only spread
 a fragment instead of panicking

---
 bluejay-typegen-macro/src/lib.rs                      |  3 ++-
 bluejay-typegen-macro/src/validation/error.rs         | 11 +++++++++++
 .../src/validation/selections_are_valid.rs            | 11 +++++++++++
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/bluejay-typegen-macro/src/lib.rs b/bluejay-typegen-macro/src/lib.rs
index b6a0ec2..f4af3b8 100644
--- a/bluejay-typegen-macro/src/lib.rs
+++ b/bluejay-typegen-macro/src/lib.rs
@@ -342,7 +342,8 @@ fn map_parser_errors<E: Into<ParserError>>(
 ///   selections.
 /// * Selection sets on union types must contain either a single fragment spread, or both an unaliased `__typename`
 ///   selection and inline fragments for all or a subset of the objects contained in the union. A fragment spread must
-///   target either the union or a type that includes all of its members.
+///   target either the union or a type that includes all of its members. The inline fragments must contain only field
+///   selections.
 ///
 /// ### Example
 /// See top-level documentation of `bluejay-typegen` for an example.
diff --git a/bluejay-typegen-macro/src/validation/error.rs b/bluejay-typegen-macro/src/validation/error.rs
index a41dfbf..7fae3d1 100644
--- a/bluejay-typegen-macro/src/validation/error.rs
+++ b/bluejay-typegen-macro/src/validation/error.rs
@@ -40,6 +40,9 @@ pub(crate) enum Error<'a, E: ExecutableDocument, S: SchemaDefinition> {
     FragmentSpreadOnUnionInvalidTarget {
         fragment_spread: &'a E::FragmentSpread,
     },
+    FragmentSpreadInInlineFragmentOnUnion {
+        fragment_spread: &'a E::FragmentSpread,
+    },
     FragmentAndOperationNamesClash {
         operation_definition: &'a E::OperationDefinition,
         fragment_definition: &'a E::FragmentDefinition,
@@ -138,6 +141,14 @@ impl<'a, S: SchemaDefinition> From<Error<'a, ParserExecutableDocument<'a>, S>> f
                 )),
                 Vec::new(),
             ),
+            Error::FragmentSpreadInInlineFragmentOnUnion { fragment_spread } => Self::new(
+                format!("{CRATE_NAME} requires inline fragments on unions to contain field selections only"),
+                Some(Annotation::new(
+                    "Fragment spread in inline fragment on union type",
+                    fragment_spread.span().clone(),
+                )),
+                Vec::new(),
+            ),
             Error::FragmentAndOperationNamesClash { operation_definition, fragment_definition } => Self::new(
                 format!("{CRATE_NAME} requires fragment and operation names to be unique, but encountered a clash with name `{}`", fragment_definition.name().as_ref()),
                 Some(Annotation::new(
diff --git a/bluejay-typegen-macro/src/validation/selections_are_valid.rs b/bluejay-typegen-macro/src/validation/selections_are_valid.rs
index bb8f144..0150d46 100644
--- a/bluejay-typegen-macro/src/validation/selections_are_valid.rs
+++ b/bluejay-typegen-macro/src/validation/selections_are_valid.rs
@@ -201,6 +201,17 @@ impl<'a, E: ExecutableDocument, S: SchemaDefinition> SelectionsAreValid<'a, E, S
                 })
             });
 
+        for inline_fragment in &targets_member_type {
+            // the variant generated for a member has the fields selected in its inline fragment,
+            // a fragment spread that is not isolated is reported for the selection set it is in
+            if let Ok(Some(fragment_spread)) =
+                self.isolated_fragment_spread(inline_fragment.selection_set())
+            {
+                self.errors
+                    .push(Error::FragmentSpreadInInlineFragmentOnUnion { fragment_spread });
+            }
+        }
+
         self.errors.extend(
             does_not_target_member_type
                 .into_iter()
-- 
2.43.0

