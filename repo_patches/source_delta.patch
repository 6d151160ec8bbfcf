From 44f84cb8586b0fe48a9319cb225148f366db3f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:47 +0000
Subject: [PATCH 001/103] fix: check each part of a list concatenation against
 the list type

The parts of a ListConcat are lists themselves, but were checked against the
type of the items, so well-typed concatenations were rejected.
---
 hugr-core/src/types/type_param.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hugr-core/src/types/type_param.rs b/hugr-core/src/types/type_param.rs
index b539e55..aa1d768 100644
--- a/hugr-core/src/types/type_param.rs
+++ b/hugr-core/src/types/type_param.rs
@@ -657,9 +657,9 @@ pub fn check_term_type(term: &Term, type_: &Term) -> Result<(), TermTypeError> {
                 check_term_type(term, item_type)
             })
         }
-        (Term::ListConcat(lists), Term::ListType(item_type)) => lists
+        (Term::ListConcat(lists), Term::ListType(_)) => lists
             .iter()
-            .try_for_each(|list| check_term_type(list, item_type)),
+            .try_for_each(|list| check_term_type(list, type_)),
         (TypeArg::Tuple(_) | TypeArg::TupleConcat(_), TypeParam::TupleType(item_types)) => {
             let term_parts: Vec<_> = term.clone().into_tuple_parts().collect();
             let type_parts: Vec<_> = item_types.clone().into_list_parts().collect();
-- 
2.43.0


From e87ed00293574191a04a822b252ed60e4fc374ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:47 +0000
Subject: [PATCH 002/103] fix: substitution keeps tuple types as tuple types

---
 hugr-core/src/types/type_param.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-core/src/types/type_param.rs b/hugr-core/src/types/type_param.rs
index aa1d768..016518a 100644
--- a/hugr-core/src/types/type_param.rs
+++ b/hugr-core/src/types/type_param.rs
@@ -446,7 +446,7 @@ impl Term {
             Term::BytesType => self.clone(),
             Term::FloatType => self.clone(),
             Term::ListType(item_type) => Term::new_list_type(item_type.substitute(t)),
-            Term::TupleType(item_types) => Term::new_list_type(item_types.substitute(t)),
+            Term::TupleType(item_types) => Term::new_tuple_type(item_types.substitute(t)),
             Term::StaticType => self.clone(),
             Term::ConstType(ty) => Term::new_const(ty.substitute1(t)),
         }
-- 
2.43.0


From 299af1e24203740ccbd22d891beac46c39bc428f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:17 +0000
Subject: [PATCH 003/103] fix: instantiate a row variable with a list variable
 or a concatenation

A list-of-types parameter may be instantiated by a variable of list kind or by
a ListConcat; both are accepted by validation, but substituting them for a row
variable panicked.
---
 hugr-core/src/types.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/hugr-core/src/types.rs b/hugr-core/src/types.rs
index 3bb307b..0f067c2 100644
--- a/hugr-core/src/types.rs
+++ b/hugr-core/src/types.rs
@@ -15,7 +15,7 @@ use crate::extension::resolution::{
     ExtensionCollectionError, WeakExtensionRegistry, collect_type_exts,
 };
 pub use crate::ops::constant::{ConstTypeError, CustomCheckFailure};
-use crate::types::type_param::check_term_type;
+use crate::types::type_param::{SeqPart, check_term_type};
 use crate::utils::display_list_with_separator;
 pub use check::SumTypeError;
 pub use custom::CustomType;
@@ -753,12 +753,13 @@ impl<'a> Substitution<'a> {
             .expect("Undeclared type variable - call validate() ?");
         debug_assert!(check_term_type(arg, &TypeParam::new_list_type(bound)).is_ok());
         match arg {
-            TypeArg::List(elems) => elems
-                .iter()
-                .map(|ta| {
-                    match ta {
-                        Term::Runtime(ty) => return ty.clone().into(),
-                        Term::Variable(v) => {
+            TypeArg::List(_) | TypeArg::ListConcat(_) | TypeArg::Variable(_) => arg
+                .clone()
+                .into_list_parts()
+                .map(|part| {
+                    match part {
+                        SeqPart::Item(Term::Runtime(ty)) => return ty.into(),
+                        SeqPart::Item(Term::Variable(v)) | SeqPart::Splice(Term::Variable(v)) => {
                             if let Some(b) = v.bound_if_row_var() {
                                 return TypeRV::new_row_var_use(v.index(), b);
                             }
-- 
2.43.0


From 907733c7cab7ad48a33e0c3f1a0a7d92f6a070c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 004/103] fix: resolve extensions in every node of a graph with
 copy nodes

The node capacity of a MultiPortGraph excludes its copy nodes, so iterating
node indices up to it missed the last nodes of graphs where nodes were added
after a port was connected more than once.
---
 hugr-core/src/hugr.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/hugr-core/src/hugr.rs b/hugr-core/src/hugr.rs
index d5d62c6..48509e8 100644
--- a/hugr-core/src/hugr.rs
+++ b/hugr-core/src/hugr.rs
@@ -285,16 +285,11 @@ impl Hugr {
         // This is not something we want to expose it the API, so we manually
         // iterate instead of writing it as a method.
         //
-        // Since we don't have a non-borrowing iterator over all the possible
-        // NodeIds, we have to simulate it by iterating over all possible
-        // indices and checking if the node exists.
+        // Note that the graph's node capacity is not an upper bound for the node
+        // indices, as it does not count the copy nodes used for multiports.
         let weak_extensions: WeakExtensionRegistry = extensions.into();
-        for n in 0..self.graph.node_capacity() {
-            let pg_node = portgraph::NodeIndex::new(n);
+        for pg_node in self.graph.nodes_iter() {
             let node: Node = pg_node.into();
-            if !self.contains_node(node) {
-                continue;
-            }
 
             let op = &mut self.op_types[pg_node];
 
-- 
2.43.0


From e3d4e2289513ec508cc3339e13ab46770772d01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 005/103] fix: text model variables may start with a digit, as
 exported ones do

---
 hugr-model/src/v0/ast/hugr.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-model/src/v0/ast/hugr.pest b/hugr-model/src/v0/ast/hugr.pest
index d960cb3..92651a8 100644
--- a/hugr-model/src/v0/ast/hugr.pest
+++ b/hugr-model/src/v0/ast/hugr.pest
@@ -103,7 +103,7 @@ term = {
 }
 
 term_wildcard   = @{ "_" ~ !(ASCII_ALPHANUMERIC | "_" | "-") }
-term_var        =  { "?" ~ identifier }
+term_var        = @{ "?" ~ identifier_rest+ }
 term_apply      =  { symbol_name | ("(" ~ symbol_name ~ term* ~ ")") }
 term_list       =  { "[" ~ part* ~ "]" }
 term_tuple      =  { "(" ~ "tuple" ~ part* ~ ")" }
-- 
2.43.0


From 7bb23d058f2fb06784290e600522d9e980fdfce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 006/103] fix: print floats with an exponent so that the model
 text parser accepts them

---
 hugr-model/src/v0/ast/print.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/hugr-model/src/v0/ast/print.rs b/hugr-model/src/v0/ast/print.rs
index 071146d..d457296 100644
--- a/hugr-model/src/v0/ast/print.rs
+++ b/hugr-model/src/v0/ast/print.rs
@@ -169,8 +169,15 @@ fn print_literal<'a>(printer: &mut Printer<'a>, literal: &'a Literal) {
             printer.parens_exit();
         }
         Literal::Float(float) => {
-            // The debug representation of a float always includes a decimal point.
-            printer.text(format!("{:.?}", float.into_inner()));
+            // The grammar requires a decimal point, which the debug representation
+            // of a float leaves out when it uses an exponent (as in `1e16`).
+            let mut text = format!("{:?}", float.into_inner());
+            if let Some(exponent) = text.find('e')
+                && !text.contains('.')
+            {
+                text.insert_str(exponent, ".0");
+            }
+            printer.text(text);
         }
     }
 }
-- 
2.43.0


From 8aac971da69f2f24effcff7c52beb7ccde651582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 007/103] fix: report model text naturals out of range instead
 of panicking

---
 hugr-model/src/v0/ast/parse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hugr-model/src/v0/ast/parse.rs b/hugr-model/src/v0/ast/parse.rs
index a2c9a5c..0e669d2 100644
--- a/hugr-model/src/v0/ast/parse.rs
+++ b/hugr-model/src/v0/ast/parse.rs
@@ -397,7 +397,12 @@ fn parse_bytes(pair: Pair<Rule>) -> ParseResult<Arc<[u8]>> {
 
 fn parse_nat(pair: Pair<Rule>) -> ParseResult<u64> {
     debug_assert_eq!(pair.as_rule(), Rule::literal_nat);
-    let value = pair.as_str().trim().parse().unwrap();
+    let span = pair.as_span();
+    let value = pair
+        .as_str()
+        .trim()
+        .parse()
+        .map_err(|_| ParseError::custom("natural number literal out of range", span))?;
     Ok(value)
 }
 
-- 
2.43.0


From a5cf8731434531ad356d4cedca9bc3b6bbee277d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 008/103] fix: the argument of a model text function constant
 is a region

---
 hugr-model/src/v0/ast/hugr.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-model/src/v0/ast/hugr.pest b/hugr-model/src/v0/ast/hugr.pest
index 92651a8..b5733bf 100644
--- a/hugr-model/src/v0/ast/hugr.pest
+++ b/hugr-model/src/v0/ast/hugr.pest
@@ -107,7 +107,7 @@ term_var        = @{ "?" ~ identifier_rest+ }
 term_apply      =  { symbol_name | ("(" ~ symbol_name ~ term* ~ ")") }
 term_list       =  { "[" ~ part* ~ "]" }
 term_tuple      =  { "(" ~ "tuple" ~ part* ~ ")" }
-term_const_func =  { "(" ~ "fn" ~ term ~ ")" }
+term_const_func =  { "(" ~ "fn" ~ region ~ ")" }
 
 part         = { spliced_term | term }
 spliced_term = { term ~ "..." }
-- 
2.43.0


From 2fec6286317118b3f12a788157fc82d7f710c885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:55 +0000
Subject: [PATCH 009/103] fix: model text names that start with a keyword are
 names

---
 hugr-model/src/v0/ast/hugr.pest | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hugr-model/src/v0/ast/hugr.pest b/hugr-model/src/v0/ast/hugr.pest
index b5733bf..01618d8 100644
--- a/hugr-model/src/v0/ast/hugr.pest
+++ b/hugr-model/src/v0/ast/hugr.pest
@@ -78,10 +78,10 @@ node_declare_ctr       = { "(" ~ "declare-ctr" ~ symbol ~ meta* ~ ")" }
 node_declare_operation = { "(" ~ "declare-operation" ~ symbol ~ meta* ~ ")" }
 node_tail_loop         = { "(" ~ "tail-loop" ~ port_lists? ~ signature? ~ meta* ~ region* ~ ")" }
 node_cond              = { "(" ~ "cond" ~ port_lists? ~ signature? ~ meta* ~ region* ~ ")" }
-node_import            = { "(" ~ "import" ~ symbol_name ~ meta* ~ ")" }
+node_import            = { "(" ~ !symbol_name ~ "import" ~ symbol_name ~ meta* ~ ")" }
 node_custom            = { "(" ~ term ~ port_lists? ~ signature? ~ meta* ~ region* ~ ")" }
 
-visibility = { "public" | "private" }
+visibility = @{ ("public" | "private") ~ !(identifier_rest | ".") }
 
 symbol = { visibility? ~ symbol_name ~ param* ~ where_clause* ~ term }
 
@@ -102,11 +102,11 @@ term = {
   | term_apply
 }
 
-term_wildcard   = @{ "_" ~ !(ASCII_ALPHANUMERIC | "_" | "-") }
+term_wildcard   = @{ "_" ~ !(ASCII_ALPHANUMERIC | "_" | "-" | ".") }
 term_var        = @{ "?" ~ identifier_rest+ }
 term_apply      =  { symbol_name | ("(" ~ symbol_name ~ term* ~ ")") }
 term_list       =  { "[" ~ part* ~ "]" }
-term_tuple      =  { "(" ~ "tuple" ~ part* ~ ")" }
+term_tuple      =  { "(" ~ !symbol_name ~ "tuple" ~ part* ~ ")" }
 term_const_func =  { "(" ~ "fn" ~ region ~ ")" }
 
 part         = { spliced_term | term }
-- 
2.43.0


From 4eb2cae7ff6b2c4277865e59410c9a2e5907b2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 010/103] fix: resolve the extensions packaged in a model text
 envelope

---
 hugr-core/src/envelope/reader.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/envelope/reader.rs b/hugr-core/src/envelope/reader.rs
index 803b5b6..74ad60b 100644
--- a/hugr-core/src/envelope/reader.rs
+++ b/hugr-core/src/envelope/reader.rs
@@ -222,7 +222,12 @@ impl<R: BufRead> EnvelopeReader<R> {
                 .into_iter::<Vec<Extension>>()
                 .next()
                 .unwrap_or(Ok(vec![]))?;
-            ExtensionRegistry::new(extra_extensions.into_iter().map(std::sync::Arc::new))
+            // Update the internal `Weak<Extension>` references.
+            ExtensionRegistry::new_with_extension_resolution(
+                extra_extensions,
+                &WeakExtensionRegistry::from(&self.registry),
+            )
+            .map_err(crate::extension::ExtensionRegistryLoadError::from)?
         } else {
             ExtensionRegistry::new([])
         };
-- 
2.43.0


From 0029d8c7046014ae13d89891c9972e430c656598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 011/103] fix: keep positive and negative zero apart when
 sharing model terms

---
 hugr-core/src/export.rs          | 4 ++++
 hugr-model/src/v0/ast/resolve.rs | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/export.rs b/hugr-core/src/export.rs
index 9b0dc2a..564d90e 100644
--- a/hugr-core/src/export.rs
+++ b/hugr-core/src/export.rs
@@ -194,6 +194,10 @@ impl<'a> Context<'a> {
                 let prefix = args.iter().take_while(|arg| !arg.is_valid()).count();
                 table::Term::Apply(symbol, &args[prefix..])
             }
+            // Zeros of either sign compare as equal, and so must not be shared.
+            table::Term::Literal(model::Literal::Float(value)) if value == 0.0 => {
+                return self.module.insert_term(term);
+            }
             term => term,
         };
 
diff --git a/hugr-model/src/v0/ast/resolve.rs b/hugr-model/src/v0/ast/resolve.rs
index 54ca2bb..04b9eb1 100644
--- a/hugr-model/src/v0/ast/resolve.rs
+++ b/hugr-model/src/v0/ast/resolve.rs
@@ -6,7 +6,7 @@ use thiserror::Error;
 use super::{
     LinkName, Module, Node, Operation, Param, Region, SeqPart, Symbol, SymbolName, Term, VarName,
 };
-use crate::v0::{RegionKind, ScopeClosure, table};
+use crate::v0::{Literal, RegionKind, ScopeClosure, table};
 use crate::v0::{
     scope::{LinkTable, SymbolTable, VarTable},
     table::{LinkIndex, NodeId, RegionId, TermId, VarId},
@@ -84,6 +84,10 @@ impl<'a> Context<'a> {
                 table::Term::Apply(symbol_id, terms)
             }
             Term::List(parts) => table::Term::List(self.resolve_seq_parts(parts)?),
+            // Zeros of either sign compare as equal, and so must not be shared.
+            Term::Literal(literal @ Literal::Float(value)) if *value == 0.0 => {
+                return Ok(self.module.insert_term(table::Term::Literal(literal.clone())));
+            }
             Term::Literal(literal) => table::Term::Literal(literal.clone()),
             Term::Tuple(parts) => table::Term::Tuple(self.resolve_seq_parts(parts)?),
             Term::Func(region) => {
-- 
2.43.0


From 28f3e9d0923c243b736189f1c88311dd4d6ff7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 012/103] fix: read the constraints of aliases from the binary
 model format

---
 hugr-model/src/v0/ast/resolve.rs |  4 +++-
 hugr-model/src/v0/binary/read.rs | 21 +++++++--------------
 2 files changed, 10 insertions(+), 15 deletions(-)

diff --git a/hugr-model/src/v0/ast/resolve.rs b/hugr-model/src/v0/ast/resolve.rs
index 04b9eb1..10a911f 100644
--- a/hugr-model/src/v0/ast/resolve.rs
+++ b/hugr-model/src/v0/ast/resolve.rs
@@ -86,7 +86,9 @@ impl<'a> Context<'a> {
             Term::List(parts) => table::Term::List(self.resolve_seq_parts(parts)?),
             // Zeros of either sign compare as equal, and so must not be shared.
             Term::Literal(literal @ Literal::Float(value)) if *value == 0.0 => {
-                return Ok(self.module.insert_term(table::Term::Literal(literal.clone())));
+                return Ok(self
+                    .module
+                    .insert_term(table::Term::Literal(literal.clone())));
             }
             Term::Literal(literal) => table::Term::Literal(literal.clone()),
             Term::Tuple(parts) => table::Term::Tuple(self.resolve_seq_parts(parts)?),
diff --git a/hugr-model/src/v0/binary/read.rs b/hugr-model/src/v0/binary/read.rs
index ae44ebb..2a35582 100644
--- a/hugr-model/src/v0/binary/read.rs
+++ b/hugr-model/src/v0/binary/read.rs
@@ -168,21 +168,19 @@ fn read_operation<'a>(
         Which::Dfg(()) => table::Operation::Dfg,
         Which::Cfg(()) => table::Operation::Cfg,
         Which::Block(()) => table::Operation::Block,
-        Which::FuncDefn(reader) => table::Operation::DefineFunc(read_symbol(bump, reader?, None)?),
-        Which::FuncDecl(reader) => table::Operation::DeclareFunc(read_symbol(bump, reader?, None)?),
+        Which::FuncDefn(reader) => table::Operation::DefineFunc(read_symbol(bump, reader?)?),
+        Which::FuncDecl(reader) => table::Operation::DeclareFunc(read_symbol(bump, reader?)?),
         Which::AliasDefn(reader) => {
             let symbol = reader.get_symbol()?;
             let value = table::TermId(reader.get_value());
-            table::Operation::DefineAlias(read_symbol(bump, symbol, Some(&[]))?, value)
-        }
-        Which::AliasDecl(reader) => {
-            table::Operation::DeclareAlias(read_symbol(bump, reader?, Some(&[]))?)
+            table::Operation::DefineAlias(read_symbol(bump, symbol)?, value)
         }
+        Which::AliasDecl(reader) => table::Operation::DeclareAlias(read_symbol(bump, reader?)?),
         Which::ConstructorDecl(reader) => {
-            table::Operation::DeclareConstructor(read_symbol(bump, reader?, None)?)
+            table::Operation::DeclareConstructor(read_symbol(bump, reader?)?)
         }
         Which::OperationDecl(reader) => {
-            table::Operation::DeclareOperation(read_symbol(bump, reader?, None)?)
+            table::Operation::DeclareOperation(read_symbol(bump, reader?)?)
         }
         Which::Custom(operation) => table::Operation::Custom(table::TermId(operation)),
         Which::TailLoop(()) => table::Operation::TailLoop,
@@ -242,20 +240,15 @@ impl From<hugr_capnp::Visibility> for Option<model::Visibility> {
     }
 }
 
-/// (Only) if `constraints` are None, then they are read from the `reader`
 fn read_symbol<'a>(
     bump: &'a Bump,
     reader: hugr_capnp::symbol::Reader,
-    constraints: Option<&'a [table::TermId]>,
 ) -> ReadResult<&'a mut table::Symbol<'a>> {
     let name = bump.alloc_str(reader.get_name()?.to_str()?);
     let visibility = reader.get_visibility()?.into();
     let visibility = bump.alloc(visibility);
     let params = read_list!(bump, reader.get_params()?, read_param);
-    let constraints = match constraints {
-        Some(cs) => cs,
-        None => read_scalar_list!(bump, reader, get_constraints, table::TermId),
-    };
+    let constraints = read_scalar_list!(bump, reader, get_constraints, table::TermId);
     let signature = table::TermId(reader.get_signature());
     Ok(bump.alloc(table::Symbol {
         visibility,
-- 
2.43.0


From 3a06468c93bc54758cc8dd2cb201b4aa50bbd90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 013/103] fix: report malformed node lists and edges in JSON
 envelopes instead of panicking

---
 hugr-core/src/core.rs           | 14 +++++++---
 hugr-core/src/hugr/serialize.rs | 46 +++++++++++++++++++++++++++++----
 2 files changed, 52 insertions(+), 8 deletions(-)

diff --git a/hugr-core/src/core.rs b/hugr-core/src/core.rs
index 4578aa5..2505b50 100644
--- a/hugr-core/src/core.rs
+++ b/hugr-core/src/core.rs
@@ -10,9 +10,7 @@ use itertools::Either::{Left, Right};
 use crate::{HugrView, hugr::HugrError};
 
 /// A handle to a node in the HUGR.
-#[derive(
-    Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, From, serde::Serialize, serde::Deserialize,
-)]
+#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, From, serde::Serialize)]
 #[serde(transparent)]
 pub struct Node {
     index: portgraph::NodeIndex,
@@ -80,6 +78,16 @@ pub type Direction = portgraph::Direction;
 // Stores node and offset to output port
 pub struct Wire<N = Node>(N, OutgoingPort);
 
+impl<'de> serde::Deserialize<'de> for Node {
+    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        // The `Deserialize` implementation of `portgraph::NodeIndex` panics on
+        // indices that are too large.
+        let index = usize::deserialize(deserializer)?;
+        let index = portgraph::NodeIndex::try_from(index).map_err(serde::de::Error::custom)?;
+        Ok(Self { index })
+    }
+}
+
 impl Node {
     /// Returns the node as a portgraph `NodeIndex`.
     #[inline]
diff --git a/hugr-core/src/hugr/serialize.rs b/hugr-core/src/hugr/serialize.rs
index 5ddc9e3..e8fb82c 100644
--- a/hugr-core/src/hugr/serialize.rs
+++ b/hugr-core/src/hugr/serialize.rs
@@ -134,6 +134,25 @@ pub enum HUGRSerializationError {
         /// The node that has the port without offset.
         node: Node,
     },
+    /// Edges with wrong port offsets.
+    #[error("The {dir:?} port {offset} of an edge is not a port of node {node}.")]
+    UnknownPort {
+        /// The node that does not have the port.
+        node: Node,
+        /// The direction of the port.
+        dir: Direction,
+        /// The offset of the port.
+        offset: usize,
+    },
+    /// The parent of a node, or the entrypoint, is not in the node list.
+    #[error("The node {node} is not in the node list.")]
+    UnknownNode {
+        /// The unknown node.
+        node: Node,
+    },
+    /// The node list is empty, so the HUGR has no root.
+    #[error("The node list is empty.")]
+    NoNodes,
     /// First node in node list must be the HUGR root.
     #[error("The first node in the node list has parent {0}, should be itself (index 0)")]
     FirstNodeNotRoot(Node),
@@ -260,13 +279,14 @@ impl TryFrom<SerHugrLatest> for Hugr {
             entrypoint,
         }: SerHugrLatest,
     ) -> Result<Self, Self::Error> {
+        let num_nodes = nodes.len();
         // Root must be first node
         let mut nodes = nodes.into_iter();
         let NodeSer {
             parent: root_parent,
             op: root_type,
             ..
-        } = nodes.next().unwrap();
+        } = nodes.next().ok_or(HUGRSerializationError::NoNodes)?;
         if root_parent.index() != 0 {
             return Err(HUGRSerializationError::FirstNodeNotRoot(root_parent));
         }
@@ -281,11 +301,22 @@ impl TryFrom<SerHugrLatest> for Hugr {
         let hugr_node =
             |node: Node| -> Node { portgraph::NodeIndex::new(node.index() + padding_nodes).into() };
 
+        let is_known = |node: Node| node.index() < num_nodes;
+
         for node_ser in nodes {
-            hugr.add_node_with_parent(hugr_node(node_ser.parent), node_ser.op);
+            let parent = node_ser.parent;
+            if !is_known(parent) {
+                return Err(HUGRSerializationError::UnknownNode { node: parent });
+            }
+            let node = hugr.add_node(node_ser.op);
+            hugr.hierarchy
+                .push_child(node.into_portgraph(), hugr_node(parent).into_portgraph())?;
         }
 
         if let Some(entrypoint) = entrypoint {
+            if !is_known(entrypoint) {
+                return Err(HUGRSerializationError::UnknownNode { node: entrypoint });
+            }
             hugr.set_entrypoint(hugr_node(entrypoint));
         }
 
@@ -299,9 +330,6 @@ impl TryFrom<SerHugrLatest> for Hugr {
         }
 
         let unwrap_offset = |node: Node, offset, dir, hugr: &Hugr| -> Result<usize, Self::Error> {
-            if !hugr.graph.contains_node(node.into_portgraph()) {
-                return Err(HUGRSerializationError::UnknownEdgeNode { node });
-            }
             let offset = if let Some(offset) = offset {
                 offset as usize
             } else {
@@ -315,9 +343,17 @@ impl TryFrom<SerHugrLatest> for Hugr {
                     })?
                     .index()
             };
+            if offset >= hugr.graph.num_ports(node.into_portgraph(), dir) {
+                return Err(HUGRSerializationError::UnknownPort { node, dir, offset });
+            }
             Ok(offset)
         };
         for [(src, from_offset), (dst, to_offset)] in edges {
+            for node in [src, dst] {
+                if !is_known(node) {
+                    return Err(HUGRSerializationError::UnknownEdgeNode { node });
+                }
+            }
             let src = hugr_node(src);
             let dst = hugr_node(dst);
 
-- 
2.43.0


From 42069a669e7639fa966c8ddead83a8a8fef9736f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:49 +0000
Subject: [PATCH 014/103] fix: reject binary models in which a term, region or
 node contains itself

---
 hugr-model/src/v0/binary/read.rs | 143 ++++++++++++++++++++++++++++++-
 1 file changed, 141 insertions(+), 2 deletions(-)

diff --git a/hugr-model/src/v0/binary/read.rs b/hugr-model/src/v0/binary/read.rs
index 2a35582..09a859e 100644
--- a/hugr-model/src/v0/binary/read.rs
+++ b/hugr-model/src/v0/binary/read.rs
@@ -22,6 +22,10 @@ pub enum ReadError {
         /// The version of the hugr-model format in the file.
         actual: semver::Version,
     },
+
+    /// A term, region or node of a module contains itself.
+    #[display("The module contains a term, region or node that contains itself.")]
+    CyclicModule,
 }
 
 type ReadResult<T> = Result<T, ReadError>;
@@ -132,12 +136,147 @@ fn read_module<'a>(
         .map(|r| read_term(bump, r))
         .collect::<ReadResult<_>>()?;
 
-    Ok(table::Module {
+    let module = table::Module {
         root,
         nodes,
         regions,
         terms,
-    })
+    };
+
+    // Everything that traverses a module recurses, and would not terminate on cycles.
+    if !is_acyclic(&module) {
+        return Err(ReadError::CyclicModule);
+    }
+
+    Ok(module)
+}
+
+/// Checks that no term, region or node of the module contains itself.
+///
+/// References to items that do not exist are ignored.
+fn is_acyclic(module: &table::Module) -> bool {
+    #[derive(Clone, Copy, PartialEq, Eq)]
+    enum State {
+        Unvisited,
+        Open,
+        Closed,
+    }
+
+    let mut states = [
+        vec![State::Unvisited; module.terms.len()],
+        vec![State::Unvisited; module.regions.len()],
+        vec![State::Unvisited; module.nodes.len()],
+    ];
+    let mut stack = Vec::new();
+
+    let items = (0..module.terms.len() as u32)
+        .map(|i| Item::Term(table::TermId(i)))
+        .chain((0..module.regions.len() as u32).map(|i| Item::Region(table::RegionId(i))))
+        .chain((0..module.nodes.len() as u32).map(|i| Item::Node(table::NodeId(i))));
+
+    for item in items {
+        // Each entry is an item together with the items it contains that are not visited yet.
+        stack.push((None, vec![item]));
+
+        while let Some((parent, children)) = stack.last_mut() {
+            let Some(child) = children.pop() else {
+                if let Some((kind, index)) = *parent {
+                    let kind: usize = kind;
+                    let index: usize = index;
+                    states[kind][index] = State::Closed;
+                }
+                stack.pop();
+                continue;
+            };
+
+            let (kind, index) = match child {
+                Item::Term(id) => (0, id.index()),
+                Item::Region(id) => (1, id.index()),
+                Item::Node(id) => (2, id.index()),
+            };
+
+            match states[kind].get_mut(index) {
+                Some(State::Open) => return false,
+                Some(state @ State::Unvisited) => {
+                    *state = State::Open;
+                    stack.push((Some((kind, index)), contained_items(module, child)));
+                }
+                Some(State::Closed) | None => {}
+            }
+        }
+    }
+
+    true
+}
+
+#[derive(Clone, Copy)]
+enum Item {
+    Term(table::TermId),
+    Region(table::RegionId),
+    Node(table::NodeId),
+}
+
+/// The items that are directly contained in an item.
+fn contained_items(module: &table::Module, item: Item) -> Vec<Item> {
+    use table::{Operation, SeqPart, Term};
+
+    fn symbol<'a>(operation: &Operation<'a>) -> Option<&'a table::Symbol<'a>> {
+        match operation {
+            Operation::DefineFunc(symbol)
+            | Operation::DeclareFunc(symbol)
+            | Operation::DefineAlias(symbol, _)
+            | Operation::DeclareAlias(symbol)
+            | Operation::DeclareConstructor(symbol)
+            | Operation::DeclareOperation(symbol) => Some(symbol),
+            _ => None,
+        }
+    }
+
+    let mut items = Vec::new();
+
+    match item {
+        Item::Term(id) => match &module.terms[id.index()] {
+            Term::Apply(_, args) => items.extend(args.iter().map(|arg| Item::Term(*arg))),
+            Term::List(parts) | Term::Tuple(parts) => {
+                items.extend(parts.iter().map(|part| match part {
+                    SeqPart::Item(term) | SeqPart::Splice(term) => Item::Term(*term),
+                }));
+            }
+            Term::Func(region) => items.push(Item::Region(*region)),
+            // The type of a variable is that of the parameter it refers to.
+            Term::Var(table::VarId(node, index)) => {
+                let node = module.nodes.get(node.index());
+                let symbol = node.and_then(|node| symbol(&node.operation));
+                let param = symbol.and_then(|symbol| symbol.params.get(*index as usize));
+                items.extend(param.map(|param| Item::Term(param.r#type)));
+            }
+            Term::Wildcard | Term::Literal(_) => {}
+        },
+        Item::Region(id) => {
+            let region = &module.regions[id.index()];
+            items.extend(region.children.iter().map(|node| Item::Node(*node)));
+            items.extend(region.meta.iter().map(|term| Item::Term(*term)));
+            items.extend(region.signature.map(Item::Term));
+        }
+        Item::Node(id) => {
+            let node = &module.nodes[id.index()];
+            items.extend(node.regions.iter().map(|region| Item::Region(*region)));
+            items.extend(node.meta.iter().map(|term| Item::Term(*term)));
+            items.extend(node.signature.map(Item::Term));
+
+            if let Some(symbol) = symbol(&node.operation) {
+                items.extend(symbol.params.iter().map(|param| Item::Term(param.r#type)));
+                items.extend(symbol.constraints.iter().map(|term| Item::Term(*term)));
+                items.push(Item::Term(symbol.signature));
+            }
+
+            if let Operation::Custom(term) | Operation::DefineAlias(_, term) = &node.operation {
+                items.push(Item::Term(*term));
+            }
+        }
+    }
+
+    items
 }
 
 fn read_node<'a>(bump: &'a Bump, reader: hugr_capnp::node::Reader) -> ReadResult<table::Node<'a>> {
-- 
2.43.0


From daa0abe6e47ea99ddc98d9781ea8ee71b58f3ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:49 +0000
Subject: [PATCH 015/103] fix: check type arguments before custom validators,
 and sizes of array operations

---
 hugr-core/src/extension/op_def.rs                    |  1 +
 .../src/std_extensions/collections/array/array_op.rs | 12 +++++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/extension/op_def.rs b/hugr-core/src/extension/op_def.rs
index c1e19b5..aeed9fe 100644
--- a/hugr-core/src/extension/op_def.rs
+++ b/hugr-core/src/extension/op_def.rs
@@ -231,6 +231,7 @@ impl SignatureFunc {
         let temp: PolyFuncTypeRV; // to keep alive
         let (pf, args) = match &self {
             SignatureFunc::CustomValidator(custom) => {
+                check_term_types(args, custom.poly_func.params())?;
                 custom.validate.validate(args, def)?;
                 (&custom.poly_func, args)
             }
diff --git a/hugr-core/src/std_extensions/collections/array/array_op.rs b/hugr-core/src/std_extensions/collections/array/array_op.rs
index 1eafb59..01689ef 100644
--- a/hugr-core/src/std_extensions/collections/array/array_op.rs
+++ b/hugr-core/src/std_extensions/collections/array/array_op.rs
@@ -72,20 +72,26 @@ impl<AK: ArrayKind> SignatureFromArgs for GenericArrayOpDef<AK> {
         let [TypeArg::BoundedNat(n)] = *arg_values else {
             return Err(SignatureError::InvalidTypeArgs);
         };
+        // Nodes cannot have more ports than a port index can address.
+        let check_ports = || match n <= u64::from(u16::MAX) {
+            true => Ok(n as usize),
+            false => Err(SignatureError::InvalidTypeArgs),
+        };
         let elem_ty_var = Type::new_var_use(0, TypeBound::Linear);
         let array_ty = AK::ty(n, elem_ty_var.clone());
         let params = vec![TypeBound::Linear.into()];
         let poly_func_ty = match self {
             GenericArrayOpDef::new_array => PolyFuncTypeRV::new(
                 params,
-                FuncValueType::new(vec![elem_ty_var.clone(); n as usize], array_ty),
+                FuncValueType::new(vec![elem_ty_var.clone(); check_ports()?], array_ty),
             ),
             GenericArrayOpDef::unpack => PolyFuncTypeRV::new(
                 params,
-                FuncValueType::new(array_ty, vec![elem_ty_var.clone(); n as usize]),
+                FuncValueType::new(array_ty, vec![elem_ty_var.clone(); check_ports()?]),
             ),
             GenericArrayOpDef::pop_left | GenericArrayOpDef::pop_right => {
-                let popped_array_ty = AK::ty(n - 1, elem_ty_var.clone());
+                let popped_size = n.checked_sub(1).ok_or(SignatureError::InvalidTypeArgs)?;
+                let popped_array_ty = AK::ty(popped_size, elem_ty_var.clone());
                 PolyFuncTypeRV::new(
                     params,
                     FuncValueType::new(
-- 
2.43.0


From 8a66ca47b652fc357499a541f115737b096e9fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:49 +0000
Subject: [PATCH 016/103] fix: report malformed models on import instead of
 panicking

---
 hugr-core/src/extension/type_def.rs |  4 +-
 hugr-core/src/import.rs             | 93 +++++++++++++++++++++--------
 2 files changed, 71 insertions(+), 26 deletions(-)

diff --git a/hugr-core/src/extension/type_def.rs b/hugr-core/src/extension/type_def.rs
index b848c75..706732f 100644
--- a/hugr-core/src/extension/type_def.rs
+++ b/hugr-core/src/extension/type_def.rs
@@ -148,7 +148,9 @@ impl TypeDef {
                     let ta = args.get(*i);
                     match ta {
                         Some(TypeArg::Runtime(s)) => s.least_upper_bound(),
-                        _ => panic!("TypeArg index does not refer to a type."),
+                        // Not a valid instance of the definition, which is for `check_args`
+                        // to report. Assume the most general case.
+                        _ => TypeBound::Linear,
                     }
                 }))
             }
diff --git a/hugr-core/src/import.rs b/hugr-core/src/import.rs
index 8c4f2a2..5fa8ee3 100644
--- a/hugr-core/src/import.rs
+++ b/hugr-core/src/import.rs
@@ -152,6 +152,9 @@ enum OrderHintError {
     /// Order hint involving a node with no order port.
     #[error("order hint on node with no order port: {0}")]
     NoOrderPort(table::NodeId),
+    /// Order hint into the input node or out of the output node of a region.
+    #[error("order hint from key {0} to key {1} enters an input node or leaves an output node")]
+    WrongDirection(u64, u64),
 }
 
 /// Helper macro to create an `ImportErrorInner::Unsupported` error with a formatted message.
@@ -353,8 +356,8 @@ impl<'a> Context<'a> {
         self.nodes.insert(node_id, node);
 
         let node_data = self.get_node(node_id)?;
-        self.record_links(node, Direction::Incoming, node_data.inputs);
-        self.record_links(node, Direction::Outgoing, node_data.outputs);
+        self.record_links(node, Direction::Incoming, node_data.inputs)?;
+        self.record_links(node, Direction::Outgoing, node_data.outputs)?;
 
         for meta_item in node_data.meta {
             self.import_node_metadata(node, *meta_item)
@@ -422,10 +425,20 @@ impl<'a> Context<'a> {
     }
 
     /// Associate links with the ports of the given node in the given direction.
-    fn record_links(&mut self, node: Node, direction: Direction, links: &'a [table::LinkIndex]) {
-        let optype = self.hugr.get_optype(node);
+    fn record_links(
+        &mut self,
+        node: Node,
+        direction: Direction,
+        links: &'a [table::LinkIndex],
+    ) -> Result<(), ImportErrorInner> {
         // NOTE: `OpType::port_count` copies the signature, which significantly slows down the import.
-        debug_assert!(links.len() <= optype.port_count(direction));
+        if links.len() > self.hugr.num_ports(node, direction) {
+            return Err(error_invalid!(
+                "expected at most {} links, but found {}",
+                self.hugr.num_ports(node, direction),
+                links.len()
+            ));
+        }
 
         for (link, port) in links.iter().zip(self.hugr.node_ports(node, direction)) {
             self.link_ports
@@ -433,6 +446,7 @@ impl<'a> Context<'a> {
                 .or_default()
                 .push((node, port));
         }
+        Ok(())
     }
 
     /// Link up the ports in the hugr graph, according to the connectivity information that
@@ -491,11 +505,18 @@ impl<'a> Context<'a> {
     /// Connects static ports according to the connections in [`self.static_edges`].
     fn link_static_ports(&mut self) -> Result<(), ImportErrorInner> {
         for (src_id, dst_id) in std::mem::take(&mut self.static_edges) {
-            // None of these lookups should fail given how we constructed `static_edges`.
-            let src = self.nodes[&src_id];
+            // The source may lie outside of the module's regions if the model is malformed.
+            let src = *self
+                .nodes
+                .get(&src_id)
+                .ok_or_else(|| error_invalid!("unknown node {}", src_id))?;
             let dst = self.nodes[&dst_id];
-            let src_port = self.hugr.get_optype(src).static_output_port().unwrap();
-            let dst_port = self.hugr.get_optype(dst).static_input_port().unwrap();
+            let (Some(src_port), Some(dst_port)) = (
+                self.hugr.get_optype(src).static_output_port(),
+                self.hugr.get_optype(dst).static_input_port(),
+            ) else {
+                return Err(error_invalid!("node {} can not be referenced", src_id));
+            };
             self.hugr.connect(src, src_port, dst, dst_port);
         }
 
@@ -526,7 +547,13 @@ impl<'a> Context<'a> {
             }
         };
 
-        self.import_poly_func_type(func_node, *symbol, |_, signature| Ok(signature))
+        let func_sig: PolyFuncType =
+            self.import_poly_func_type(func_node, *symbol, |_, signature| Ok(signature))?;
+        // The signature is about to be instantiated, which panics on malformed variable uses.
+        if !func_sig.params().is_empty() {
+            func_sig.validate()?;
+        }
+        Ok(func_sig)
     }
 
     /// Import the root region of the module.
@@ -707,8 +734,8 @@ impl<'a> Context<'a> {
         );
 
         // Make sure that the ports of the input/output nodes are connected correctly
-        self.record_links(input, Direction::Outgoing, region_data.sources);
-        self.record_links(output, Direction::Incoming, region_data.targets);
+        self.record_links(input, Direction::Outgoing, region_data.sources)?;
+        self.record_links(output, Direction::Incoming, region_data.targets)?;
 
         for child in region_data.children {
             self.import_node(*child, node)?;
@@ -753,9 +780,10 @@ impl<'a> Context<'a> {
                     continue;
                 };
 
-                // NOTE: The lookups here are expected to succeed since we only
-                // process the order metadata after we have imported the nodes.
-                let child_node = self.nodes[child_id];
+                // Some children, such as imported symbols, have no node of their own.
+                let Some(&child_node) = self.nodes.get(child_id) else {
+                    return Err(OrderHintError::NoOrderPort(*child_id).into());
+                };
                 let child_optype = self.hugr.get_optype(child_node);
 
                 // Check that the node has order ports.
@@ -807,14 +835,22 @@ impl<'a> Context<'a> {
                 continue;
             };
 
-            let a = order_keys.get(a).ok_or(OrderHintError::UnknownKey(*a))?;
-            let b = order_keys.get(b).ok_or(OrderHintError::UnknownKey(*b))?;
-
-            // NOTE: The unwrap here must succeed:
-            // - For all ordinary nodes we checked that they have an order port.
-            // - Input and output nodes always have an order port.
-            let a_port = self.hugr.get_optype(*a).other_output_port().unwrap();
-            let b_port = self.hugr.get_optype(*b).other_input_port().unwrap();
+            let (key_a, key_b) = (*a, *b);
+            let a = order_keys
+                .get(&key_a)
+                .ok_or(OrderHintError::UnknownKey(key_a))?;
+            let b = order_keys
+                .get(&key_b)
+                .ok_or(OrderHintError::UnknownKey(key_b))?;
+
+            // NOTE: For all ordinary nodes we checked that they have an order port, but
+            // an input node has no incoming and an output node no outgoing one.
+            let (Some(a_port), Some(b_port)) = (
+                self.hugr.get_optype(*a).other_output_port(),
+                self.hugr.get_optype(*b).other_input_port(),
+            ) else {
+                return Err(OrderHintError::WrongDirection(key_a, key_b).into());
+            };
 
             self.hugr.connect(*a, a_port, *b, b_port);
         }
@@ -1030,7 +1066,7 @@ impl<'a> Context<'a> {
             let exit = self
                 .hugr
                 .add_node_with_parent(node, OpType::ExitBlock(ExitBlock { cfg_outputs }));
-            self.record_links(exit, Direction::Incoming, region_data.targets);
+            self.record_links(exit, Direction::Incoming, region_data.targets)?;
         }
 
         // Finally we import all other nodes.
@@ -1300,6 +1336,12 @@ impl<'a> Context<'a> {
                 .ok_or_else(|| error_uninferred!("node signature"))?;
             let [_, outputs] = self.get_func_type(signature)?;
             let (variants, _) = self.import_adt_and_rest(outputs)?;
+            if *tag >= variants.len() as u64 {
+                return Err(error_invalid!(
+                    "the tag of a `{}` must be a valid index into the list of variants",
+                    model::CORE_MAKE_ADT
+                ));
+            }
             let node = self.make_node(
                 node_id,
                 OpType::Tag(Tag {
@@ -1994,7 +2036,8 @@ impl<'a> Context<'a> {
                 }
             };
 
-            return Ok(Value::sum(*tag as _, items, ty).unwrap());
+            return Value::sum(*tag as _, items, ty)
+                .map_err(|err| error_invalid!("invalid `{}`: {}", model::CORE_CONST_ADT, err));
         }
 
         match term_data {
-- 
2.43.0


From e11e42b594f36a854bcaf4b9501d2bb9c31f287f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:49 +0000
Subject: [PATCH 017/103] fix: report invalid tags in JSON envelopes instead of
 panicking

---
 hugr-core/src/hugr/serialize.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/hugr-core/src/hugr/serialize.rs b/hugr-core/src/hugr/serialize.rs
index e8fb82c..c41136b 100644
--- a/hugr-core/src/hugr/serialize.rs
+++ b/hugr-core/src/hugr/serialize.rs
@@ -144,6 +144,14 @@ pub enum HUGRSerializationError {
         /// The offset of the port.
         offset: usize,
     },
+    /// A tag operation whose tag is not the index of a variant.
+    #[error("The tag {tag} is not the index of one of the {num_variants} variants.")]
+    InvalidTag {
+        /// The tag.
+        tag: usize,
+        /// The number of variants of the sum type.
+        num_variants: usize,
+    },
     /// The parent of a node, or the entrypoint, is not in the node list.
     #[error("The node {node} is not in the node list.")]
     UnknownNode {
@@ -301,6 +309,15 @@ impl TryFrom<SerHugrLatest> for Hugr {
         let hugr_node =
             |node: Node| -> Node { portgraph::NodeIndex::new(node.index() + padding_nodes).into() };
 
+        let check_op = |op: &OpType| match op {
+            OpType::Tag(tag) if tag.tag >= tag.variants.len() => {
+                Err(HUGRSerializationError::InvalidTag {
+                    tag: tag.tag,
+                    num_variants: tag.variants.len(),
+                })
+            }
+            _ => Ok(()),
+        };
         let is_known = |node: Node| node.index() < num_nodes;
 
         for node_ser in nodes {
@@ -308,6 +325,7 @@ impl TryFrom<SerHugrLatest> for Hugr {
             if !is_known(parent) {
                 return Err(HUGRSerializationError::UnknownNode { node: parent });
             }
+            check_op(&node_ser.op)?;
             let node = hugr.add_node(node_ser.op);
             hugr.hierarchy
                 .push_child(node.into_portgraph(), hugr_node(parent).into_portgraph())?;
-- 
2.43.0


From fdb98e21d9c2263372de5b8dc4a9f38ab6be9a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:41 +0000
Subject: [PATCH 018/103] fix: remainder of constant-folded signed division of
 the minimum 64-bit integer

---
 .../src/std_extensions/arithmetic/int_ops/const_fold.rs   | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index faad176..e5eff91 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -58,13 +58,7 @@ fn divmod_s(n: i64, m: u64) -> (i64, u64) {
     } else if m < (1u64 << 63) {
         // n = -2^63, 1 < m < 2^63
         let m_s = m as i64;
-        let q = n / m_s;
-        let r = n % m_s;
-        if r == 0 {
-            (q, 0)
-        } else {
-            (q - 1, (m_s - r) as u64)
-        }
+        (n.div_euclid(m_s), n.rem_euclid(m_s) as u64)
     } else {
         // n = -2^63, m >= 2^63
         (-1, m - (1u64 << 63))
-- 
2.43.0


From 1fdb1e8429a928e2cb02ef3531b8c8be06283a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:41 +0000
Subject: [PATCH 019/103] fix: constant folding of iabs on the minimum value of
 every width

---
 .../src/std_extensions/arithmetic/int_ops/const_fold.rs   | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index e5eff91..d388704 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -912,13 +912,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                         Some(vec![(
                             0.into(),
                             Value::extension(
-                                if n0val == i64::MIN {
-                                    debug_assert!(logwidth == 6);
-                                    ConstInt::new_u(6, 1u64 << 63)
-                                } else {
-                                    ConstInt::new_s(logwidth, n0val.abs())
-                                }
-                                .unwrap(),
+                                ConstInt::new_u(logwidth, n0val.unsigned_abs()).unwrap(),
                             ),
                         )])
                     } else {
-- 
2.43.0


From 18e21d95f9cde0d266a52db00beaf8c04df62bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:41 +0000
Subject: [PATCH 020/103] fix: constant folding of integer narrowing to 64 bits

---
 .../src/std_extensions/arithmetic/int_ops/const_fold.rs     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index d388704..6a9ebe0 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -122,7 +122,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             .unwrap_or_else(|e| panic!("Invalid computed sum, {e}"))
                     };
                     let n0val: u64 = n0.value_u();
-                    let out_const: Value = if n0val >> (1 << logwidth1) != 0 {
+                    let out_const: Value = if n0val > bitmask_from_logwidth(logwidth1) {
                         mk_out_const(0, Ok(INARROW_ERROR_VALUE.clone()))
                     } else {
                         mk_out_const(1, ConstInt::new_u(logwidth1, n0val).map(Into::into))
@@ -149,8 +149,8 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             .unwrap_or_else(|e| panic!("Invalid computed sum, {e}"))
                     };
                     let n0val: i64 = n0.value_s();
-                    let ub = 1i64 << ((1 << logwidth1) - 1);
-                    let out_const: Value = if n0val >= ub || n0val < -ub {
+                    let max = (bitmask_from_logwidth(logwidth1) >> 1) as i64;
+                    let out_const: Value = if n0val > max || n0val < -max - 1 {
                         mk_out_const(0, Ok(INARROW_ERROR_VALUE.clone()))
                     } else {
                         mk_out_const(1, ConstInt::new_s(logwidth1, n0val).map(Into::into))
-- 
2.43.0


From ab7f5325d56f8bc97a41e3bfe39f126f9dae189c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:41 +0000
Subject: [PATCH 021/103] fix: constant folding of ipow with exponents over 32
 bits

---
 .../arithmetic/int_ops/const_fold.rs          | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index 6a9ebe0..5eec163 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -40,6 +40,19 @@ fn bitmask_from_logwidth(logwidth: u8) -> u64 {
     bitmask_from_width(1u64 << logwidth)
 }
 
+/// Power modulo `2^64`, for any 64-bit exponent.
+fn wrapping_pow(mut base: u64, mut exp: u64) -> u64 {
+    let mut result = 1u64;
+    while exp > 0 {
+        if exp & 1 == 1 {
+            result = result.wrapping_mul(base);
+        }
+        base = base.wrapping_mul(base);
+        exp >>= 1;
+    }
+    result
+}
+
 // return q, r s.t. n = qm + r, 0 <= r < m
 fn divmod_s(n: i64, m: u64) -> (i64, u64) {
     // This is quite hairy.
@@ -553,11 +566,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             Value::extension(
                                 ConstInt::new_u(
                                     logwidth,
-                                    n0.value_u()
-                                        .overflowing_pow(
-                                            n1.value_u().try_into().unwrap_or(u32::MAX),
-                                        )
-                                        .0
+                                    wrapping_pow(n0.value_u(), n1.value_u())
                                         & bitmask_from_logwidth(logwidth),
                                 )
                                 .unwrap(),
-- 
2.43.0


From 9ff9ac1b885ee76efa03bad37cca53be4bce1251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:41 +0000
Subject: [PATCH 022/103] fix: constant folding of shifts and rotations by the
 full width or more

---
 .../arithmetic/int_ops/const_fold.rs          | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index 5eec163..59c062a 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -40,6 +40,16 @@ fn bitmask_from_logwidth(logwidth: u8) -> u64 {
     bitmask_from_width(1u64 << logwidth)
 }
 
+/// Shift left, filling with zeros, by any amount.
+fn shl(n: u64, k: u64) -> u64 {
+    if k < 64 { n << k } else { 0 }
+}
+
+/// Shift right, filling with zeros, by any amount.
+fn shr(n: u64, k: u64) -> u64 {
+    if k < 64 { n >> k } else { 0 }
+}
+
 /// Power modulo `2^64`, for any 64-bit exponent.
 fn wrapping_pow(mut base: u64, mut exp: u64) -> u64 {
     let mut result = 1u64;
@@ -1035,7 +1045,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             Value::extension(
                                 ConstInt::new_u(
                                     logwidth0,
-                                    (n0.value_u() << n1.value_u())
+                                    shl(n0.value_u(), n1.value_u())
                                         & bitmask_from_logwidth(logwidth0),
                                 )
                                 .unwrap(),
@@ -1060,7 +1070,8 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                         Some(vec![(
                             0.into(),
                             Value::extension(
-                                ConstInt::new_u(logwidth0, n0.value_u() >> n1.value_u()).unwrap(),
+                                ConstInt::new_u(logwidth0, shr(n0.value_u(), n1.value_u()))
+                                    .unwrap(),
                             ),
                         )])
                     }
@@ -1087,7 +1098,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             Value::extension(
                                 ConstInt::new_u(
                                     logwidth0,
-                                    ((n << k) & bitmask_from_width(w)) | (n >> (w - k)),
+                                    (shl(n, k) & bitmask_from_width(w)) | shr(n, w - k),
                                 )
                                 .unwrap(),
                             ),
@@ -1116,7 +1127,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             Value::extension(
                                 ConstInt::new_u(
                                     logwidth0,
-                                    ((n << (w - k)) & bitmask_from_width(w)) | (n >> k),
+                                    (shl(n, w - k) & bitmask_from_width(w)) | shr(n, k),
                                 )
                                 .unwrap(),
                             ),
-- 
2.43.0


From 88e735f91dfa655c285401fc7ee0155a4dda8fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:03 +0000
Subject: [PATCH 023/103] fix: constant-folded checked division returns the
 success variant, as its type says

---
 .../arithmetic/int_ops/const_fold.rs          | 44 +++++++++++++------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index 59c062a..b53f0d7 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -7,7 +7,7 @@ use crate::{
     IncomingPort,
     extension::{
         ConstFoldResult, Folder, OpDef,
-        prelude::{ConstError, sum_with_error},
+        prelude::{ConstError, const_ok, error_type, sum_with_error},
     },
     ops::{
         Value,
@@ -614,10 +614,13 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                         } else {
                             let qval = nval / mval;
                             let rval = nval % mval;
-                            Value::tuple(vec![
-                                Value::extension(ConstInt::new_u(logwidth0, qval).unwrap()),
-                                Value::extension(ConstInt::new_u(logwidth0, rval).unwrap()),
-                            ])
+                            const_ok(
+                                Value::tuple(vec![
+                                    Value::extension(ConstInt::new_u(logwidth0, qval).unwrap()),
+                                    Value::extension(ConstInt::new_u(logwidth0, rval).unwrap()),
+                                ]),
+                                error_type(),
+                            )
                         };
                         Some(vec![(0.into(), out_const)])
                     }
@@ -674,10 +677,13 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             err_value()
                         } else {
                             let (qval, rval) = divmod_s(nval, mval);
-                            Value::tuple(vec![
-                                Value::extension(ConstInt::new_s(logwidth0, qval).unwrap()),
-                                Value::extension(ConstInt::new_u(logwidth0, rval).unwrap()),
-                            ])
+                            const_ok(
+                                Value::tuple(vec![
+                                    Value::extension(ConstInt::new_s(logwidth0, qval).unwrap()),
+                                    Value::extension(ConstInt::new_u(logwidth0, rval).unwrap()),
+                                ]),
+                                error_type(),
+                            )
                         };
                         Some(vec![(0.into(), out_const)])
                     }
@@ -731,7 +737,10 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                         let out_const: Value = if mval == 0 {
                             err_value()
                         } else {
-                            Value::extension(ConstInt::new_u(logwidth0, nval / mval).unwrap())
+                            const_ok(
+                                Value::extension(ConstInt::new_u(logwidth0, nval / mval).unwrap()),
+                                error_type(),
+                            )
                         };
                         Some(vec![(0.into(), out_const)])
                     }
@@ -783,7 +792,10 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                         let out_const: Value = if mval == 0 {
                             err_value()
                         } else {
-                            Value::extension(ConstInt::new_u(logwidth0, nval % mval).unwrap())
+                            const_ok(
+                                Value::extension(ConstInt::new_u(logwidth0, nval % mval).unwrap()),
+                                error_type(),
+                            )
                         };
                         Some(vec![(0.into(), out_const)])
                     }
@@ -836,7 +848,10 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             err_value()
                         } else {
                             let (qval, _) = divmod_s(nval, mval);
-                            Value::extension(ConstInt::new_s(logwidth0, qval).unwrap())
+                            const_ok(
+                                Value::extension(ConstInt::new_s(logwidth0, qval).unwrap()),
+                                error_type(),
+                            )
                         };
                         Some(vec![(0.into(), out_const)])
                     }
@@ -890,7 +905,10 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             err_value()
                         } else {
                             let (_, rval) = divmod_s(nval, mval);
-                            Value::extension(ConstInt::new_u(logwidth0, rval).unwrap())
+                            const_ok(
+                                Value::extension(ConstInt::new_u(logwidth0, rval).unwrap()),
+                                error_type(),
+                            )
                         };
                         Some(vec![(0.into(), out_const)])
                     }
-- 
2.43.0


From 27e4f6d41d64334461e6e8589fb2566f82e66c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 024/103] fix: do not constant-fold logic Eq with one unknown
 input

---
 hugr-core/src/std_extensions/logic.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/std_extensions/logic.rs b/hugr-core/src/std_extensions/logic.rs
index 1e211f6..ba2ac0d 100644
--- a/hugr-core/src/std_extensions/logic.rs
+++ b/hugr-core/src/std_extensions/logic.rs
@@ -44,9 +44,8 @@ impl ConstFold for LogicOp {
             Self::Eq => {
                 let inps = read_inputs(consts)?;
                 let res = inps.iter().copied().reduce(|a, b| a == b)?;
-                // If we have only some inputs, we can still fold to false, but not to true
-                (!res || inps.len() as u64 == 2)
-                    .then_some(vec![(0.into(), ops::Value::from_bool(res))])
+                // Nothing is known of the result unless we have a const for both inputs.
+                (inps.len() as u64 == 2).then_some(vec![(0.into(), ops::Value::from_bool(res))])
             }
             Self::Not => {
                 let inps = read_inputs(consts)?;
-- 
2.43.0


From cab912a5a556ba76ce9660f9e611bdbf13c70247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:23 +0000
Subject: [PATCH 025/103] fix: do not constant-fold MakeTuple with unknown
 elements

---
 hugr-core/src/extension/prelude.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/extension/prelude.rs b/hugr-core/src/extension/prelude.rs
index e83287f..6cc7756 100644
--- a/hugr-core/src/extension/prelude.rs
+++ b/hugr-core/src/extension/prelude.rs
@@ -618,11 +618,17 @@ pub enum TupleOpDef {
 impl ConstFold for TupleOpDef {
     fn fold(
         &self,
-        _type_args: &[TypeArg],
+        type_args: &[TypeArg],
         consts: &[(crate::IncomingPort, Value)],
     ) -> crate::extension::ConstFoldResult {
         match self {
             TupleOpDef::MakeTuple => {
+                let [Term::List(elem_types)] = type_args else {
+                    return None;
+                };
+                if consts.len() != elem_types.len() {
+                    return None; // Some of the elements are not known
+                }
                 fold_out_row([Value::tuple(sorted_consts(consts).into_iter().cloned())])
             }
             TupleOpDef::UnpackTuple => {
-- 
2.43.0


From 7e337a7ba9be9754fdc682baf9548cee714243e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:24 +0000
Subject: [PATCH 026/103] fix: constant-folded truncation of out-of-range
 floats is an error, not saturation

---
 .../arithmetic/conversions/const_fold.rs        | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/conversions/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/conversions/const_fold.rs
index 90615d7..7c30146 100644
--- a/hugr-core/src/std_extensions/arithmetic/conversions/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/conversions/const_fold.rs
@@ -13,7 +13,6 @@ use crate::{
         float_types::ConstF64,
         int_types::{ConstInt, get_log_width},
     },
-    types::ConstTypeError,
 };
 
 use super::ConvertOpDef;
@@ -39,7 +38,7 @@ pub(super) fn set_fold(op: &ConvertOpDef, def: &mut OpDef) {
 fn fold_trunc(
     type_args: &[crate::types::TypeArg],
     consts: &[(IncomingPort, Value)],
-    convert: impl Fn(f64, u8) -> Result<Value, ConstTypeError>,
+    convert: impl Fn(f64, u8) -> Option<Value>,
 ) -> ConstFoldResult {
     let f: &ConstF64 = get_single_input_value(consts)?;
     let f = f.value();
@@ -56,8 +55,8 @@ fn fold_trunc(
         .as_either(int_type.clone())
     };
     let out_const: ops::Value = if f.is_finite() {
-        let cv = convert(f, log_width);
-        if let Ok(cv) = cv {
+        let cv = convert(f.trunc(), log_width);
+        if let Some(cv) = cv {
             const_ok(cv, error_type())
         } else {
             err_value()
@@ -78,7 +77,9 @@ impl ConstFold for TruncU {
         consts: &[(IncomingPort, ops::Value)],
     ) -> ConstFoldResult {
         fold_trunc(type_args, consts, |f, log_width| {
-            ConstInt::new_u(log_width, f.trunc() as u64).map(Into::into)
+            // Casts saturate, so check that the value is one of the 64-bit integers.
+            let n = (0.0..2f64.powi(64)).contains(&f).then_some(f as u64)?;
+            ConstInt::new_u(log_width, n).ok().map(Into::into)
         })
     }
 }
@@ -92,7 +93,11 @@ impl ConstFold for TruncS {
         consts: &[(IncomingPort, ops::Value)],
     ) -> ConstFoldResult {
         fold_trunc(type_args, consts, |f, log_width| {
-            ConstInt::new_s(log_width, f.trunc() as i64).map(Into::into)
+            // Casts saturate, so check that the value is one of the 64-bit integers.
+            let n = (-(2f64.powi(63))..2f64.powi(63))
+                .contains(&f)
+                .then_some(f as i64)?;
+            ConstInt::new_s(log_width, n).ok().map(Into::into)
         })
     }
 }
-- 
2.43.0


From 54dbef4a48a969127a8678f8e151f9cd5d8ff492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:22 +0000
Subject: [PATCH 027/103] fix: constant folding no longer disconnects linear
 values from the nodes that produce them

---
 hugr-passes/src/const_fold.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hugr-passes/src/const_fold.rs b/hugr-passes/src/const_fold.rs
index 82caf3d..809fc90 100644
--- a/hugr-passes/src/const_fold.rs
+++ b/hugr-passes/src/const_fold.rs
@@ -129,8 +129,9 @@ impl<H: HugrMut<Node = Node> + 'static> ComposablePass<H> for ConstantFoldPass {
             .entry_descendants()
             .flat_map(|n| hugr.node_inputs(n).map(move |ip| (n, ip)))
             .filter(|(n, ip)| {
+                // Linear values must stay connected to the node that produces them.
                 *n != hugr.entrypoint()
-                    && matches!(hugr.get_optype(*n).port_kind(*ip), Some(EdgeKind::Value(_)))
+                    && matches!(hugr.get_optype(*n).port_kind(*ip), Some(EdgeKind::Value(ty)) if ty.copyable())
             })
             .filter_map(|(n, ip)| {
                 let (src, outp) = hugr.single_linked_output(n, ip).unwrap();
-- 
2.43.0


From 341185b78f4fd511818fe9a54ef88adf674dae03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:14 +0000
Subject: [PATCH 028/103] fix: constant folding no longer puts constants into
 places whose type depends on type variables

---
 hugr-passes/src/const_fold.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/hugr-passes/src/const_fold.rs b/hugr-passes/src/const_fold.rs
index 809fc90..8b2a3c8 100644
--- a/hugr-passes/src/const_fold.rs
+++ b/hugr-passes/src/const_fold.rs
@@ -11,7 +11,7 @@ use hugr_core::{
     ops::{
         Const, DataflowOpTrait, ExtensionOp, LoadConstant, OpType, Value, constant::OpaqueValue,
     },
-    types::EdgeKind,
+    types::{EdgeKind, PolyFuncType, Signature},
 };
 use value_handle::ValueHandle;
 
@@ -146,6 +146,15 @@ impl<H: HugrMut<Node = Node> + 'static> ComposablePass<H> for ConstantFoldPass {
                         .ok()?,
                 ))
             })
+            // Constants cannot mention the type variables of the function they are in, nor
+            // take the place of something whose type does (even if its value is always the same)
+            .filter(|(n, ip, v)| {
+                let ty = v.get_type();
+                hugr.get_optype(*n).port_kind(*ip) == Some(EdgeKind::Value(ty.clone()))
+                    && PolyFuncType::from(Signature::new(vec![], ty))
+                        .validate()
+                        .is_ok()
+            })
             .collect::<Vec<_>>();
         // Sadly the results immutably borrow the hugr, so we must extract everything we need before mutation
         let terminating_tail_loops = hugr
-- 
2.43.0


From d5d0e91bb66baade48352fd623cd977286013cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:02 +0000
Subject: [PATCH 029/103] fix: the analysis of an entry point's inputs covers
 its declared inputs, not just those of known calls

---
 hugr-passes/src/const_fold.rs       | 14 ++++++++++----
 hugr-passes/src/dataflow/datalog.rs | 15 +++++++++++++--
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/hugr-passes/src/const_fold.rs b/hugr-passes/src/const_fold.rs
index 8b2a3c8..260294a 100644
--- a/hugr-passes/src/const_fold.rs
+++ b/hugr-passes/src/const_fold.rs
@@ -2,7 +2,10 @@
 //! An (example) use of the [dataflow analysis framework](super::dataflow).
 
 pub mod value_handle;
-use std::{collections::HashMap, sync::Arc};
+use std::{
+    collections::{HashMap, HashSet},
+    sync::Arc,
+};
 use thiserror::Error;
 
 use hugr_core::{
@@ -123,7 +126,10 @@ impl<H: HugrMut<Node = Node> + 'static> ComposablePass<H> for ConstantFoldPass {
         }
 
         let results = m.run(ConstFoldContext, []);
-        let mb_root_inp = hugr.get_io(hugr.entrypoint()).map(|[i, _]| i);
+        let entry_inps = (self.inputs.keys().copied())
+            .chain([hugr.entrypoint()])
+            .filter_map(|n| hugr.get_io(n).map(|[i, _]| i))
+            .collect::<HashSet<_>>();
 
         let wires_to_break = hugr
             .entry_descendants()
@@ -136,9 +142,9 @@ impl<H: HugrMut<Node = Node> + 'static> ComposablePass<H> for ConstantFoldPass {
             .filter_map(|(n, ip)| {
                 let (src, outp) = hugr.single_linked_output(n, ip).unwrap();
                 // Avoid breaking edges from existing LoadConstant (we'd only add another)
-                // or from root input node (any "external inputs" provided will show up here
+                // or from entry-point input nodes (any "external inputs" provided will show up here
                 //   - potentially also in other places which this won't catch)
-                (!hugr.get_optype(src).is_load_constant() && Some(src) != mb_root_inp).then_some((
+                (!hugr.get_optype(src).is_load_constant() && !entry_inps.contains(&src)).then_some((
                     n,
                     ip,
                     results
diff --git a/hugr-passes/src/dataflow/datalog.rs b/hugr-passes/src/dataflow/datalog.rs
index 0368f93..bc87a8f 100644
--- a/hugr-passes/src/dataflow/datalog.rs
+++ b/hugr-passes/src/dataflow/datalog.rs
@@ -28,12 +28,16 @@ type NodeInputs<V, N> = Vec<(IncomingPort, PV<V, N>)>;
 ///    [`Self::prepopulate_inputs`] can be used on each externally-callable
 ///    [`FuncDefn`](OpType::FuncDefn) to set all inputs to [`PartialValue::Top`].
 /// 3. Call [`Self::run`] to produce [`AnalysisResults`]
-pub struct Machine<H: HugrView, V: AbstractValue>(H, HashMap<H::Node, NodeInputs<V, H::Node>>);
+pub struct Machine<H: HugrView, V: AbstractValue>(
+    H,
+    HashMap<H::Node, NodeInputs<V, H::Node>>,
+    Vec<OutWire<V, H::Node>>,
+);
 
 impl<H: HugrView, V: AbstractValue> Machine<H, V> {
     /// Create a new Machine to analyse the given Hugr(View)
     pub fn new(hugr: H) -> Self {
-        Self(hugr, Default::default())
+        Self(hugr, Default::default(), Default::default())
     }
 }
 
@@ -44,6 +48,7 @@ impl<H: HugrView, V: AbstractValue> Machine<H, V> {
         for (n, inp) in self.0.linked_inputs(w.node(), w.source()) {
             self.1.entry(n).or_default().push((inp, v.clone()));
         }
+        self.2.push((w.node(), w.source(), v));
     }
 
     /// Provide initial values for the inputs to a container node
@@ -138,16 +143,19 @@ impl<H: HugrView, V: AbstractValue> Machine<H, V> {
                 .into_iter()
                 .flat_map(|(n, vals)| vals.into_iter().map(move |(ip, v)| (n, ip, v)))
                 .collect(),
+            self.2,
         )
     }
 }
 
 pub(super) type InWire<V, N> = (N, IncomingPort, PartialValue<V, N>);
+pub(super) type OutWire<V, N> = (N, OutgoingPort, PartialValue<V, N>);
 
 pub(super) fn run_datalog<V: AbstractValue, H: HugrView>(
     mut ctx: impl DFContext<V, Node = H::Node>,
     hugr: H,
     in_wire_value_proto: Vec<InWire<V, H::Node>>,
+    out_wire_value_proto: Vec<OutWire<V, H::Node>>,
 ) -> AnalysisResults<V, H> {
     // ascent-(macro-)generated code generates a bunch of warnings,
     // keep code in here to a minimum.
@@ -188,6 +196,9 @@ pub(super) fn run_datalog<V: AbstractValue, H: HugrView>(
         // Initialize all wires to bottom
         out_wire_value(n, p, PV::bottom()) <-- out_wire(n, p);
 
+        // Prepopulate out_wire_value from out_wire_value_proto.
+        out_wire_value(n, p, v) <-- for (n, p, v) in &out_wire_value_proto, out_wire(n, p);
+
         // Outputs to inputs
         in_wire_value(n, ip, v) <-- in_wire(n, ip),
             if let Some((m, op)) = hugr.single_linked_output(*n, *ip),
-- 
2.43.0


From 32387716722004cfddc18c7b5cce7272f1f0eab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:52 +0000
Subject: [PATCH 030/103] fix: the analysis of a nested entry point covers
 values from outside it

---
 hugr-passes/src/dataflow/datalog.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/hugr-passes/src/dataflow/datalog.rs b/hugr-passes/src/dataflow/datalog.rs
index bc87a8f..c3ea768 100644
--- a/hugr-passes/src/dataflow/datalog.rs
+++ b/hugr-passes/src/dataflow/datalog.rs
@@ -135,6 +135,26 @@ impl<H: HugrView, V: AbstractValue> Machine<H, V> {
             if p.peek().is_some() || !self.1.contains_key(&ep) {
                 self.prepopulate_inputs(ep, p).unwrap();
             }
+            // We know nothing of values reaching nodes inside the entrypoint directly from
+            // outside it (they may depend on the inputs of the enclosing function), except for
+            // constants.
+            let mut from_outside = Vec::new();
+            for n in self.0.entry_descendants().filter(|n| *n != ep) {
+                for (ip, _) in self.0.in_value_types(n) {
+                    let Some((src, _)) = self.0.single_linked_output(n, ip) else {
+                        continue;
+                    };
+                    let inside = std::iter::successors(Some(src), |n| self.0.get_parent(*n))
+                        .any(|anc| anc == ep);
+                    if !inside && !self.0.get_optype(src).is_load_constant() {
+                        from_outside.push((n, ip));
+                    }
+                }
+            }
+            for (n, ip) in from_outside {
+                let inputs = self.1.entry(n).or_default();
+                inputs.push((ip, PartialValue::Top));
+            }
         }
         run_datalog(
             context,
-- 
2.43.0


From 6158bb9a39566b80518fbfc5da4192c441a5a9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:18 +0000
Subject: [PATCH 031/103] fix: dead code elimination keeps the containers of
 nested entry points

---
 hugr-passes/src/dead_code.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hugr-passes/src/dead_code.rs b/hugr-passes/src/dead_code.rs
index 094d3e8..208f4a7 100644
--- a/hugr-passes/src/dead_code.rs
+++ b/hugr-passes/src/dead_code.rs
@@ -119,6 +119,11 @@ impl<H: HugrView> DeadCodeElimPass<H> {
             if !needed.insert(n) {
                 continue;
             }
+            // A node needs the containers it is in (only relevant to `entry_points`,
+            // other nodes are reached from their parents)
+            if n != h.entrypoint() {
+                q.extend(h.get_parent(n));
+            }
             for ch in h.children(n) {
                 if self.must_preserve(h, &mut must_preserve, ch)
                     || matches!(
-- 
2.43.0


From d43e95f96996d4863969f24d714416b69d83d5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:18 +0000
Subject: [PATCH 032/103] fix: dead function removal keeps what is called
 around a nested entrypoint

---
 hugr-passes/src/dead_funcs.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/hugr-passes/src/dead_funcs.rs b/hugr-passes/src/dead_funcs.rs
index a77c19f..3f43479 100644
--- a/hugr-passes/src/dead_funcs.rs
+++ b/hugr-passes/src/dead_funcs.rs
@@ -82,20 +82,16 @@ impl<H: HugrMut<Node = Node>> ComposablePass<H> for RemoveDeadFuncsPass {
             entry_points.push(n);
         }
         if hugr.entrypoint() != hugr.module_root() {
-            entry_points.push(hugr.entrypoint())
+            // The whole of the function containing the entrypoint is kept
+            // (so must be everything reachable from it).
+            entry_points.extend(
+                std::iter::successors(Some(hugr.entrypoint()), |n| hugr.get_parent(*n))
+                    .find(|n| hugr.get_parent(*n) == Some(hugr.module_root())),
+            );
         }
 
-        let mut reachable =
+        let reachable =
             reachable_funcs(&ModuleGraph::new(hugr), hugr, entry_points).collect::<HashSet<_>>();
-        // Also prevent removing the entrypoint itself
-        let mut n = Some(hugr.entrypoint());
-        while let Some(n2) = n {
-            n = hugr.get_parent(n2);
-            if n == Some(hugr.module_root()) {
-                reachable.insert(n2);
-            }
-        }
-
         let unreachable = hugr
             .children(hugr.module_root())
             .filter(|n| {
-- 
2.43.0


From a3f9eb695aa0e168a67ce521abbb915fcc10b37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:10 +0000
Subject: [PATCH 033/103] fix: inlining a call of a polymorphic function
 instantiates the signature of the region

---
 hugr-core/src/hugr/patch/inline_call.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hugr-core/src/hugr/patch/inline_call.rs b/hugr-core/src/hugr/patch/inline_call.rs
index a4d8383..09ae6d5 100644
--- a/hugr-core/src/hugr/patch/inline_call.rs
+++ b/hugr-core/src/hugr/patch/inline_call.rs
@@ -3,7 +3,7 @@
 use derive_more::{Display, Error};
 
 use crate::core::HugrNode;
-use crate::ops::{DFG, DataflowParent, OpType};
+use crate::ops::{DFG, OpType};
 use crate::types::Substitution;
 use crate::{Direction, HugrView, Node};
 
@@ -71,13 +71,14 @@ impl<N: HugrNode> PatchHugrMut for InlineCall<N> {
         let order_preds = h.linked_outputs(self.0, old_order_in).collect::<Vec<_>>();
         h.disconnect(self.0, old_order_in); // PortGraph currently does this anyway
 
+        // (The signature of a polymorphic function must be instantiated, like its body)
         let new_op = OpType::from(DFG {
             signature: h
-                .get_optype(orig_func)
-                .as_func_defn()
+                .get_optype(self.0)
+                .as_call()
                 .unwrap()
-                .inner_signature()
-                .into_owned(),
+                .instantiation
+                .clone(),
         });
         let new_order_in = new_op.other_input_port().unwrap();
 
-- 
2.43.0


From e30d851d1415736f6b0e888799115e9a864436aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:10 +0000
Subject: [PATCH 034/103] fix: inlining a DFG keeps the order of everything in
 it and around nonlocal edges

---
 hugr-core/src/hugr/patch/inline_dfg.rs | 74 ++++++++++++++++++++++----
 1 file changed, 64 insertions(+), 10 deletions(-)

diff --git a/hugr-core/src/hugr/patch/inline_dfg.rs b/hugr-core/src/hugr/patch/inline_dfg.rs
index f5a3653..85c4411 100644
--- a/hugr-core/src/hugr/patch/inline_dfg.rs
+++ b/hugr-core/src/hugr/patch/inline_dfg.rs
@@ -2,6 +2,8 @@
 //! of the DFG except Input+Output into the DFG's parent,
 //! and deleting the DFG along with its Input + Output
 
+use itertools::Itertools;
+
 use super::{PatchHugrMut, PatchVerification};
 use crate::core::HugrNode;
 use crate::ops::handle::{DfgID, NodeHandle};
@@ -73,14 +75,54 @@ impl<N: HugrNode> PatchHugrMut for InlineDFG<N> {
         };
         let parent = h.get_parent(n).unwrap();
         let [input, output] = h.get_io(n).unwrap();
-        for ch in h.children(n).skip(2).collect::<Vec<_>>() {
+        let children = h.children(n).skip(2).collect::<Vec<_>>();
+        // Children that could execute as soon as the DFG starts / end as the last thing in the DFG.
+        // (Values may also pass directly, or via nonlocal edges, between nodes inside and outside
+        // the DFG; order edges must only be added between siblings.)
+        let mut starts = h
+            .output_neighbours(input)
+            .filter(|ch| h.get_parent(*ch) == Some(n))
+            .collect::<Vec<_>>();
+        let mut ends = Vec::new();
+        for &ch in &children {
+            let op = h.get_optype(ch);
+            if op.other_input_port().is_some()
+                && !h.input_neighbours(ch).any(|src| {
+                    src != input && h.get_parent(src) == Some(n) && !h.get_optype(src).is_const()
+                })
+            {
+                starts.push(ch);
+            }
+            if op.other_output_port().is_some()
+                && !h
+                    .output_neighbours(ch)
+                    .any(|tgt| tgt != output && h.get_parent(tgt) == Some(n))
+            {
+                ends.push(ch);
+            }
+        }
+        if starts.is_empty() {
+            starts.push(output);
+        }
+        // Nodes outside with nonlocal edges to nodes inside children of the DFG must have order
+        // edges to those children once they are siblings (up to now, to the DFG)
+        let mut order_preds = Vec::new();
+        for (src_n, src_p) in h.linked_outputs(n, oth_in) {
+            debug_assert_eq!(Some(src_p), h.get_optype(src_n).other_output_port());
+            let users = h.output_neighbours(src_n).filter_map(|tgt| {
+                std::iter::successors(h.get_parent(tgt), |anc| h.get_parent(*anc))
+                    .find(|anc| h.get_parent(*anc) == Some(n))
+            });
+            let tgts = users.chain(starts.iter().copied()).unique().collect_vec();
+            order_preds.push((src_n, tgts));
+        }
+        for ch in children {
             h.set_parent(ch, parent);
         }
         // DFG Inputs. Deal with Order inputs first
-        for (src_n, src_p) in h.linked_outputs(n, oth_in).collect::<Vec<_>>() {
-            // Order edge from src_n to DFG => add order edge to each successor of Input node
-            debug_assert_eq!(Some(src_p), h.get_optype(src_n).other_output_port());
-            for tgt_n in h.output_neighbours(input).collect::<Vec<_>>() {
+        for (src_n, tgts) in order_preds {
+            // Order edge from src_n to DFG => add order edge to everything that may come first
+            for tgt_n in tgts {
                 h.add_other_edge(src_n, tgt_n);
             }
         }
@@ -103,14 +145,23 @@ impl<N: HugrNode> PatchHugrMut for InlineDFG<N> {
                 h.connect(src_n, src_p, tgt_n, tgt_p);
             }
             // Ensure order-successors of Input node execute after any node producing an input
-            for (tgt, _) in &input_ord_succs {
-                h.add_other_edge(src_n, *tgt);
+            // (the sources of nonlocal edges are ordered before `parent` already)
+            if h.get_parent(src_n) == Some(parent) {
+                for (tgt, _) in &input_ord_succs {
+                    h.add_other_edge(src_n, *tgt);
+                }
             }
         }
         // DFG Outputs. Deal with Order outputs first.
         for (tgt_n, tgt_p) in h.linked_inputs(n, oth_out).collect::<Vec<_>>() {
             debug_assert_eq!(Some(tgt_p), h.get_optype(tgt_n).other_input_port());
-            for src_n in h.input_neighbours(output).collect::<Vec<_>>() {
+            let srcs = h
+                .input_neighbours(output)
+                .filter(|src_n| h.get_parent(*src_n) == Some(parent))
+                .chain(ends.iter().copied())
+                .unique()
+                .collect::<Vec<_>>();
+            for src_n in srcs {
                 h.add_other_edge(src_n, tgt_n);
             }
         }
@@ -130,8 +181,11 @@ impl<N: HugrNode> PatchHugrMut for InlineDFG<N> {
             for (tgt_n, tgt_p) in h.linked_inputs(n, outport).collect::<Vec<_>>() {
                 h.connect(src_n, src_p, tgt_n, tgt_p);
                 // Ensure order-predecessors of Output node execute before any node consuming a DFG output
-                for (src, _) in &output_ord_preds {
-                    h.add_other_edge(*src, tgt_n);
+                // (the targets of nonlocal edges are inside an order-successor of the DFG already)
+                if h.get_parent(tgt_n) == Some(parent) {
+                    for (src, _) in &output_ord_preds {
+                        h.add_other_edge(*src, tgt_n);
+                    }
                 }
             }
             h.disconnect(n, outport);
-- 
2.43.0


From e7d92fdb6f0a8c51916ff424160766361f14fd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:10 +0000
Subject: [PATCH 035/103] fix: monomorphization leaves calls of polymorphic
 declarations and entrypoints inside polymorphic functions alone

---
 hugr-passes/src/monomorphize.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hugr-passes/src/monomorphize.rs b/hugr-passes/src/monomorphize.rs
index 2d5abd5..250e34c 100644
--- a/hugr-passes/src/monomorphize.rs
+++ b/hugr-passes/src/monomorphize.rs
@@ -113,6 +113,9 @@ fn mono_scan(
         }
         let fn_inp = ch_op.static_input_port().unwrap();
         let tgt = h.static_source(old_ch).unwrap(); // Use old_ch as edges not copied yet
+        if !h.get_optype(tgt).is_func_defn() {
+            continue; // Nothing to instantiate for a declaration
+        }
         let new_tgt = instantiate(h, tgt, type_args.clone(), mono_sig.clone(), cache);
         let fn_out = {
             let func = h.get_optype(new_tgt).as_func_defn().unwrap();
@@ -205,8 +208,10 @@ impl<H: HugrMut<Node = Node>> ComposablePass<H> for MonomorphizePass {
 
     fn run(&self, h: &mut H) -> Result<(), Self::Error> {
         let root = h.entrypoint();
-        // If the root is a polymorphic function, then there are no external calls, so nothing to do
-        if !is_polymorphic_funcdefn(h.get_optype(root)) {
+        // If the root is (in) a polymorphic function, then there are no external calls, so nothing to do
+        if !std::iter::successors(Some(root), |n| h.get_parent(*n))
+            .any(|n| is_polymorphic_funcdefn(h.get_optype(n)))
+        {
             mono_scan(h, root, None, &mut HashMap::new());
         }
         Ok(())
-- 
2.43.0


From 97e575f4e1c2b9ab29b35cd74aad0bd89d92d8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 036/103] fix: nesting CFGs handles parallel edges, self loops
 and dominator edges; edge classes use the most recent bracket

---
 hugr-passes/src/nest_cfgs.rs | 40 +++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/hugr-passes/src/nest_cfgs.rs b/hugr-passes/src/nest_cfgs.rs
index 7f456f8..192e542 100644
--- a/hugr-passes/src/nest_cfgs.rs
+++ b/hugr-passes/src/nest_cfgs.rs
@@ -44,6 +44,7 @@ use std::hash::Hash;
 use itertools::Itertools;
 use thiserror::Error;
 
+use hugr_core::hugr::patch::PatchVerification;
 use hugr_core::hugr::patch::outline_cfg::OutlineCfg;
 use hugr_core::hugr::views::HugrView;
 use hugr_core::hugr::{Patch, hugrmut::HugrMut};
@@ -81,6 +82,12 @@ pub trait CfgNester<T>: CfgNodeMap<T> {
     /// # Panics
     /// May panic if the two edges do not constitute a SESE region.
     fn nest_sese_region(&mut self, entry_edge: (T, T), exit_edge: (T, T)) -> T;
+
+    /// Whether the SESE region defined by an entry edge and exit edge may be nested, i.e.
+    /// is suitable for [`Self::nest_sese_region`].
+    fn can_nest(&self, _entry_edge: (T, T), _exit_edge: (T, T)) -> bool {
+        true
+    }
 }
 
 /// Transforms a CFG into as much-nested a form as possible.
@@ -111,6 +118,7 @@ pub fn transform_cfg_to_nested<T: Copy + Eq + Hash + std::fmt::Debug>(
             }
             let (exit, rest): (Vec<_>, Vec<_>) = view
                 .successors(n)
+                .unique()
                 .map(|s| (n, s))
                 .partition(|e| stop_at.is_some() && edge_classes.get(e).copied() == stop_at);
             exit_edges.extend(exit.into_iter().at_most_one().unwrap());
@@ -127,7 +135,9 @@ pub fn transform_cfg_to_nested<T: Copy + Eq + Hash + std::fmt::Debug>(
                         assert!(rem_edges.get_mut(cls).unwrap().remove(&e));
                         // Skip trivial regions of a single node, unless the node has other edges
                         // (non-exiting, but e.g. a backedge to a loop header, ending that loop)
-                        if prev_e.1 != e.0 || view.successors(e.0).count() > 1 {
+                        if (prev_e.1 != e.0 || view.successors(e.0).count() > 1)
+                            && view.can_nest(prev_e, e)
+                        {
                             // Traversal and nesting of the subregion's *contents* were completed in the
                             // recursive call above, so only processed nodes are moved into descendant CFGs
                             e = (view.nest_sese_region(prev_e, e), e.1);
@@ -194,6 +204,8 @@ fn all_edges<'a, T: Copy + Clone + PartialEq + Eq + Hash + 'a>(
         .chain(extra)
         .map(EdgeDest::Forward)
         .chain(cfg.predecessors(n).map(EdgeDest::Backward))
+        // A self-loop is a cycle on its own, so equivalent to no other edge
+        .filter(move |e| e.target() != n)
         .unique()
 }
 
@@ -271,6 +283,28 @@ impl<H: HugrMut<Node = Node>> CfgNester<H::Node> for IdentityCfgMap<H> {
         );
         new_block
     }
+
+    fn can_nest(&self, entry_edge: (H::Node, H::Node), exit_edge: (H::Node, H::Node)) -> bool {
+        // Edge classes neither distinguish parallel edges (from different cases of the same block),
+        // nor consider edges from unreachable blocks
+        let Ok(blocks) = region_blocks(self, entry_edge, exit_edge) else {
+            return false;
+        };
+        if OutlineCfg::new(blocks.clone()).verify(&self.h).is_err() {
+            return false;
+        }
+        // Values may be passed out of the region only along the exit edge, i.e. no `Dom` edges
+        let containing_block = |n| {
+            std::iter::successors(Some(n), |n| self.h.get_parent(*n))
+                .find(|n| self.h.get_parent(*n) == Some(self.h.entrypoint()))
+        };
+        let mut srcs = blocks.iter().flat_map(|b| self.h.children(*b));
+        srcs.all(|n| {
+            self.h
+                .output_neighbours(n)
+                .all(|tgt| containing_block(tgt).is_some_and(|b| blocks.contains(&b)))
+        })
+    }
 }
 
 /// An error trying to get the blocks of a SESE (single-entry-single-exit) region
@@ -417,10 +451,10 @@ impl<T: Copy + Clone + PartialEq + Eq + Hash> BracketList<T> {
     }
 
     pub fn tag(&mut self, deleted: &HashSet<Bracket<T>>) -> Option<(Bracket<T>, usize)> {
-        while let Some(e) = self.items.front() {
+        while let Some(e) = self.items.back() {
             // Pop deleted elements to save time (and memory)
             if deleted.contains(e) {
-                self.items.pop_front();
+                self.items.pop_back();
                 //deleted.remove(e); // Would only save memory, so keep as immutable
             } else {
                 return Some((e.clone(), self.size));
-- 
2.43.0


From d74bda7493df7dc901ebf6b3dc7959cb13480ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 037/103] fix: normalizing CFGs keeps removed blocks off the
 worklist, order edges of nonlocal values, outputs beyond the new row and an
 entry block

---
 hugr-passes/src/normalize_cfgs.rs | 68 ++++++++++++++++++++++++++++---
 1 file changed, 63 insertions(+), 5 deletions(-)

diff --git a/hugr-passes/src/normalize_cfgs.rs b/hugr-passes/src/normalize_cfgs.rs
index 20d2494..b4ddd08 100644
--- a/hugr-passes/src/normalize_cfgs.rs
+++ b/hugr-passes/src/normalize_cfgs.rs
@@ -38,6 +38,10 @@ pub fn merge_basic_blocks<H: HugrMut>(cfg: &mut H) -> Result<usize, NormalizeCFG
     let mut num_merged = 0;
     let mut worklist = cfg.children(cfg.entrypoint()).collect::<Vec<_>>();
     while let Some(n) = worklist.pop() {
+        // Skip blocks that have been merged into their predecessor since
+        if cfg.get_parent(n) != Some(cfg.entrypoint()) {
+            continue;
+        }
         // Consider merging n with its successor
         let Ok(succ) = cfg.output_neighbours(n).exactly_one() else {
             continue;
@@ -59,6 +63,11 @@ pub fn merge_basic_blocks<H: HugrMut>(cfg: &mut H) -> Result<usize, NormalizeCFG
             let n_id = *node_map.get(&dfg_id).unwrap();
             cfg.apply_patch(InlineDFG(n_id.into())).unwrap();
         }
+        // `Dom` edges from one block to nodes nested in the other have become `Ext` edges
+        let sources = cfg.children(merged_bb).collect::<Vec<_>>();
+        for src in sources {
+            add_ext_edge_orders(cfg, src, merged_bb);
+        }
         worklist.push(merged_bb);
     }
     Ok(num_merged)
@@ -247,9 +256,14 @@ pub fn normalize_cfg<H: HugrMut>(
         unpack_before_output(h, entry_output, new_cfg_inputs.clone());
 
         // Inputs to CFG go directly to DFG
+        let mut order_preds = Vec::new();
+        let order_inp = h.get_optype(cfg_node).other_input_port();
         for inp in h.node_inputs(cfg_node).collect::<Vec<_>>() {
             for src in h.linked_outputs(cfg_node, inp).collect::<Vec<_>>() {
                 h.connect(src.0, src.1, dfg, inp.index());
+                if Some(inp) == order_inp {
+                    order_preds.push(src.0);
+                }
             }
             h.disconnect(cfg_node, inp);
         }
@@ -264,6 +278,10 @@ pub fn normalize_cfg<H: HugrMut>(
         for src in h.node_outputs(dfg).collect::<Vec<_>>() {
             h.connect(dfg, src, cfg_node, src.index());
         }
+        // Order edges required for `Ext` edges into the rest of the CFG
+        for n in order_preds {
+            add_ext_edge_orders(h, n, cfg_parent);
+        }
         // Inline DFG to ensure that any nonlocal (`Dom`) edges from it, become valid `Ext` edges
         for n in nonlocal_srcs {
             // With required Order edge. (Do this before inlining, in case n is Input.)
@@ -276,8 +294,13 @@ pub fn normalize_cfg<H: HugrMut>(
     let mut exit_dfg = None;
     if let Some(pred) = h.input_neighbours(exit).exactly_one().ok().filter(|pred| {
         // Allow only if there are no `Dom` edges into `pred`. (Ignore `Ext` edges.)
-        let src_nodes = h.children(*pred).flat_map(|ch| h.input_neighbours(ch));
-        h.output_neighbours(*pred).count() == 1
+        let src_nodes = h
+            .descendants(*pred)
+            .skip(1)
+            .flat_map(|ch| h.input_neighbours(ch));
+        // (A CFG must keep its entry block, even if the only predecessors of that are unreachable)
+        h.first_child(cfg_node) != Some(*pred)
+            && h.output_neighbours(*pred).count() == 1
             && src_nodes.dedup().all(|src| {
                 ancestor_block(h, src).is_none_or(|src| src == *pred) // Nones are `Ext` edges.
             })
@@ -288,6 +311,15 @@ pub fn normalize_cfg<H: HugrMut>(
         let pred_blk = h.get_optype(pred).as_dataflow_block().unwrap();
         let new_cfg_outs = pred_blk.inner_signature().into_owned().input;
 
+        // Disconnect the CFG outputs (before the number of ports changes)
+        let out_edges = h
+            .node_outputs(cfg_node)
+            .map(|p| (p, h.linked_inputs(cfg_node, p).collect_vec()))
+            .collect_vec();
+        for (p, _) in out_edges.iter() {
+            h.disconnect(cfg_node, *p);
+        }
+
         // new CFG result type and exit block
         let cfg_ty = cfg_ty_mut(h, cfg_node);
         let result_tys = std::mem::replace(&mut cfg_ty.signature.output, new_cfg_outs.clone());
@@ -319,9 +351,7 @@ pub fn normalize_cfg<H: HugrMut>(
         unpack_before_output(h, output, result_tys);
 
         // Move output edges.
-        for p in h.node_outputs(cfg_node).collect_vec() {
-            let tgts = h.linked_inputs(cfg_node, p).collect_vec();
-            h.disconnect(cfg_node, p);
+        for (p, tgts) in out_edges {
             for tgt in tgts {
                 h.connect(dfg, p, tgt.0, tgt.1)
             }
@@ -329,6 +359,10 @@ pub fn normalize_cfg<H: HugrMut>(
         for p in h.node_inputs(dfg).collect_vec() {
             h.connect(cfg_node, p.index(), dfg, p);
         }
+        // Order edges required for `Ext` edges into the new DFG
+        for n in h.children(cfg_parent).collect_vec() {
+            add_ext_edge_orders(h, n, cfg_parent);
+        }
         exit_dfg = Some(dfg);
     }
     Ok(NormalizeCFGResult::CFGPreserved {
@@ -445,6 +479,30 @@ fn mk_rep<H: HugrView>(
     (rep, merged, [dfg1, dfg2])
 }
 
+/// Ensure that `src`, a child of `parent`, has an Order edge to each of its siblings
+/// containing a target of an `Ext` edge from `src`
+fn add_ext_edge_orders<H: HugrMut>(h: &mut H, src: H::Node, parent: H::Node) {
+    let value_tgts = h
+        .node_outputs(src)
+        .filter(|p| matches!(h.get_optype(src).port_kind(*p), Some(EdgeKind::Value(_))))
+        .flat_map(|p| h.linked_inputs(src, p))
+        .collect_vec();
+    for (tgt, _) in value_tgts {
+        let sibling = std::iter::successors(h.get_parent(tgt), |n| h.get_parent(*n))
+            .find(|n| h.get_parent(*n) == Some(parent));
+        if let Some(sibling) = sibling {
+            if !has_order_edge(h, src, sibling) {
+                h.add_other_edge(src, sibling);
+            }
+        }
+    }
+}
+
+fn has_order_edge<H: HugrView>(h: &H, src: H::Node, tgt: H::Node) -> bool {
+    let port = h.get_optype(src).other_output_port();
+    port.is_some_and(|p| h.linked_inputs(src, p).any(|(n, _)| n == tgt))
+}
+
 type NodePorts<N> = Vec<(N, OutgoingPort)>;
 /// Remove all input wires to `n` and return them in two groups:
 /// the [EdgeKind::Value] inputs, and the [EdgeKind::StateOrder] inputs
-- 
2.43.0


From 3171959204222185a96aba15429ad82db21a94a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 038/103] fix: localize edges between blocks, from moved Input
 ports, in polymorphic functions, from outside the entrypoint

---
 hugr-passes/src/non_local.rs          |  14 ++--
 hugr-passes/src/non_local/localize.rs | 113 +++++++++++++++++---------
 2 files changed, 82 insertions(+), 45 deletions(-)

diff --git a/hugr-passes/src/non_local.rs b/hugr-passes/src/non_local.rs
index c8f5e85..559fb0b 100644
--- a/hugr-passes/src/non_local.rs
+++ b/hugr-passes/src/non_local.rs
@@ -89,7 +89,7 @@ pub fn remove_nonlocal_edges<H: HugrMut>(hugr: &mut H) -> Result<(), LocalizeEdg
             let Some(EdgeKind::Value(ty)) = hugr.get_optype(src_n).port_kind(outp) else {
                 panic!("impossible")
             };
-            (node, (Wire::new(src_n, outp), ty))
+            (node, inport, (Wire::new(src_n, outp), ty))
         })
         .collect();
 
@@ -100,20 +100,18 @@ pub fn remove_nonlocal_edges<H: HugrMut>(hugr: &mut H) -> Result<(), LocalizeEdg
     // We now compute the sources needed by each parent node.
     let needs_sources_map = {
         let mut bnsm = ExtraSourceReqs::default();
-        for (target_node, (source, ty)) in nonlocal_edges.iter() {
-            let parent = hugr.get_parent(*target_node).unwrap();
-            debug_assert!(hugr.get_parent(parent).is_some());
-            bnsm.add_edge(&*hugr, parent, *source, ty.clone());
+        for (target_node, inport, (source, ty)) in nonlocal_edges.iter() {
+            bnsm.add_edge(&*hugr, (*target_node, *inport), *source, ty.clone());
         }
         bnsm
     };
 
-    debug_assert!(nonlocal_edges.iter().all(|(n, (source, _))| {
+    debug_assert!(nonlocal_edges.iter().all(|(n, _, (source, _))| {
         let source_parent = hugr.get_parent(source.node()).unwrap();
-        let source_gp = hugr.get_parent(source_parent);
+        // A CFG needs the source only if its entry block does
         ancestors(*n, hugr)
             .skip(1)
-            .take_while(|&a| a != source_parent && source_gp.is_none_or(|gp| a != gp))
+            .take_while(|&a| a != source_parent && !hugr.get_optype(a).is_cfg())
             .all(|parent| needs_sources_map.parent_needs(parent, *source))
     }));
 
diff --git a/hugr-passes/src/non_local/localize.rs b/hugr-passes/src/non_local/localize.rs
index 15f5ded..80f85a3 100644
--- a/hugr-passes/src/non_local/localize.rs
+++ b/hugr-passes/src/non_local/localize.rs
@@ -4,7 +4,7 @@ use std::collections::{BTreeMap, HashMap};
 
 use hugr_core::{
     Direction, HugrView, IncomingPort, Wire,
-    builder::{ConditionalBuilder, Dataflow, DataflowSubContainer, HugrBuilder},
+    builder::{ConditionalBuilder, Container, Dataflow, DataflowSubContainer},
     core::HugrNode,
     hugr::hugrmut::HugrMut,
     ops::{DataflowOpTrait, OpType, Tag, TailLoop},
@@ -17,21 +17,33 @@ use super::just_types;
 #[derive(Debug, Clone)]
 // For each parent/container node, a map from the source Wires that need to be added
 // as extra inputs to that container, to the Type of each.
-pub(super) struct ExtraSourceReqs<N: HugrNode>(BTreeMap<N, BTreeMap<Wire<N>, Type>>);
+pub(super) struct ExtraSourceReqs<N: HugrNode> {
+    reqs: BTreeMap<N, BTreeMap<Wire<N>, Type>>,
+    /// The (original) source of each nonlocal edge. Needed because inserting ports
+    /// changes the port numbers of sources that are Input nodes.
+    edges: HashMap<(N, IncomingPort), Wire<N>>,
+}
 
 impl<N: HugrNode> Default for ExtraSourceReqs<N> {
     fn default() -> Self {
-        Self(BTreeMap::default())
+        Self {
+            reqs: BTreeMap::default(),
+            edges: HashMap::default(),
+        }
     }
 }
 
 impl<N: HugrNode> ExtraSourceReqs<N> {
     fn insert(&mut self, node: N, source: Wire<N>, ty: Type) -> bool {
-        self.0.entry(node).or_default().insert(source, ty).is_none()
+        self.reqs
+            .entry(node)
+            .or_default()
+            .insert(source, ty)
+            .is_none()
     }
 
     fn get(&self, node: N) -> impl Iterator<Item = (&Wire<N>, &Type)> + '_ {
-        self.0.get(&node).into_iter().flat_map(BTreeMap::iter)
+        self.reqs.get(&node).into_iter().flat_map(BTreeMap::iter)
     }
 
     pub fn parent_needs(&self, parent: N, source: Wire<N>) -> bool {
@@ -42,6 +54,17 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
     /// Every intermediate node in the hierarchy
     /// between the source's parent and the target needs that source.
     pub fn add_edge(
+        &mut self,
+        hugr: &impl HugrView<Node = N>,
+        (target, inport): (N, IncomingPort),
+        source: Wire<N>,
+        ty: Type,
+    ) {
+        self.edges.insert((target, inport), source);
+        self.add_source(hugr, hugr.get_parent(target).unwrap(), source, ty);
+    }
+
+    fn add_source(
         &mut self,
         hugr: &impl HugrView<Node = N>,
         mut parent: N,
@@ -70,7 +93,7 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
                 // reaching BBs (for a Dom edge, up to but not including the source BB:
                 // all paths eventually come from the source since it dominates the target).
                 for pred in hugr.input_neighbours(parent).collect::<Vec<_>>() {
-                    self.add_edge(hugr, pred, source, ty.clone());
+                    self.add_source(hugr, pred, source, ty.clone());
                 }
                 if Some(parent) == hugr.children(parent_parent).next() {
                     // We've just added to entry node - so carry on and add to CFG as well
@@ -89,7 +112,7 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
         self.thread_node(hugr, hugr.entrypoint(), &HashMap::new())
     }
 
-    // keys of `locals` are the *original* sources of the non-local edges, in self.0.
+    // keys of `locals` are the *original* sources of the non-local edges, in self.reqs.
     fn thread_node(
         &self,
         hugr: &mut impl HugrMut<Node = N>,
@@ -98,8 +121,13 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
     ) {
         if self.get(node).next().is_none() {
             // No edges incoming into this subtree, but there could still be nonlocal edges internal to it
-            for ch in hugr.children(node).collect::<Vec<_>>() {
-                self.thread_node(hugr, ch, &HashMap::new())
+            if hugr.get_optype(node).is_cfg() {
+                // including (Dom) edges between the blocks
+                self.thread_bbs(hugr, node);
+            } else {
+                for ch in hugr.children(node).collect::<Vec<_>>() {
+                    self.thread_node(hugr, ch, &HashMap::new())
+                }
             }
             return;
         }
@@ -136,11 +164,7 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
                     self.get(hugr.children(node).next().unwrap())
                         .collect::<Vec<_>>()
                 ); // Entry node
-                for bb in hugr.children(node).collect::<Vec<_>>() {
-                    if hugr.get_optype(bb).is_dataflow_block() {
-                        self.thread_bb(hugr, bb);
-                    }
-                }
+                self.thread_bbs(hugr, node);
                 0
             }
             _ => panic!(
@@ -177,23 +201,30 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
             let OpType::Input(in_op) = hugr.optype_mut(inp) else {
                 panic!("Expected Input node")
             };
+            let old_num_ports = in_op.types.len();
             vec_insert(in_op.types.to_mut(), tys, start_new_port_index);
-            let new_outports =
-                hugr.insert_ports(inp, Direction::Outgoing, start_new_port_index, srcs.len());
+            let new_outports = hugr
+                .insert_ports(inp, Direction::Outgoing, start_new_port_index, srcs.len())
+                .collect_vec();
 
-            srcs.into_iter()
-                .zip_eq(new_outports)
-                .map(|(w, p)| (w, Wire::new(inp, p)))
+            // Existing ports of the Input node after the new ones have moved
+            let moved = (start_new_port_index..old_num_ports)
+                .map(|p| (Wire::new(inp, p), Wire::new(inp, p + new_outports.len())));
+            moved
+                .chain(
+                    srcs.into_iter()
+                        .zip_eq(new_outports.clone())
+                        .map(|(w, p)| (w, Wire::new(inp, p))),
+                )
                 .collect()
         };
         for ch in hugr.children(node).collect::<Vec<_>>() {
             for (inp, _) in hugr.in_value_types(ch).collect::<Vec<_>>() {
-                if let Some((src_n, src_p)) = hugr.single_linked_output(ch, inp) {
-                    if hugr.get_parent(src_n) != Some(node) {
-                        hugr.disconnect(ch, inp);
-                        let new_p = nlocals.get(&Wire::new(src_n, src_p)).unwrap();
-                        hugr.connect(new_p.node(), new_p.source(), ch, inp);
-                    }
+                // Note edges from outside the entrypoint are left as they are
+                if let Some(src) = self.edges.get(&(ch, inp)) {
+                    hugr.disconnect(ch, inp);
+                    let new_p = nlocals.get(src).unwrap();
+                    hugr.connect(new_p.node(), new_p.source(), ch, inp);
                 }
             }
             self.thread_node(hugr, ch, &nlocals);
@@ -227,13 +258,22 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
         srcs: Vec<(Wire<N>, Type)>,
     ) {
         let [_, o] = hugr.get_io(node).unwrap();
+        let locals = self.thread_dataflow_parent(hugr, node, 0, srcs.clone());
         let new_sum_row_prefixes = {
             let mut v = vec![vec![]; 2];
-            v[TailLoop::CONTINUE_TAG] = srcs.clone();
+            v[TailLoop::CONTINUE_TAG] = srcs.into_iter().map(|(w, t)| (locals[&w], t)).collect();
             v
         };
         add_control_prefixes(hugr, o, new_sum_row_prefixes);
-        self.thread_dataflow_parent(hugr, node, 0, srcs);
+    }
+
+    // Add to every block of a CFG (assume CFG node itself already updated).
+    fn thread_bbs(&self, hugr: &mut impl HugrMut<Node = N>, cfg: N) {
+        for bb in hugr.children(cfg).collect::<Vec<_>>() {
+            if hugr.get_optype(bb).is_dataflow_block() {
+                self.thread_bb(hugr, bb);
+            }
+        }
     }
 
     // Add to DataflowBlock *and* inner dataflow sibling subgraph
@@ -250,18 +290,17 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
                 // The wires required for each successor block, should be available in the predecessor
                 self.get(succ)
                     .map(|(w, ty)| {
-                        (
-                            if hugr.get_parent(w.node()) == Some(node) {
-                                *w
-                            } else {
-                                *locals.get(w).unwrap()
-                            },
-                            ty.clone(),
-                        )
+                        // If not in locals, should be a node in this block
+                        let local = *locals.get(w).unwrap_or(w);
+                        debug_assert_eq!(hugr.get_parent(local.node()), Some(node));
+                        (local, ty.clone())
                     })
                     .collect()
             })
             .collect();
+        if variant_source_prefixes.iter().all(Vec::is_empty) {
+            return; // No successor needs anything more
+        }
         let OpType::DataflowBlock(this_dfb) = hugr.optype_mut(node) else {
             panic!("It worked earlier!")
         };
@@ -347,12 +386,12 @@ fn add_control_prefixes<H: HugrMut>(
                 .outputs();
             case.finish_with_outputs(case_outputs).unwrap();
         }
-        (cond.finish_hugr().unwrap(), new_control_type)
+        // Do not validate: types may contain variables of the enclosing function
+        (std::mem::take(cond.hugr_mut()), new_control_type)
     };
     let cond_node = hugr.insert_hugr(parent, cond).inserted_entrypoint;
     let (old_output_source_node, old_output_source_port) =
         hugr.single_linked_output(output_node, 0).unwrap();
-    debug_assert_eq!(hugr.get_parent(old_output_source_node).unwrap(), parent);
     hugr.connect(old_output_source_node, old_output_source_port, cond_node, 0);
     for (i, &(w, _)) in needed_sources.values().enumerate() {
         hugr.connect(w.node(), w.source(), cond_node, i + 1);
-- 
2.43.0


From eade4c2b7a2bbcedfc76b53c5129b60f13818f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 039/103] fix: build subgraphs of all the given nodes, also
 those a boundary search misses

---
 hugr-core/src/hugr/views/sibling_subgraph.rs | 35 +++++++++++++++-----
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/hugr-core/src/hugr/views/sibling_subgraph.rs b/hugr-core/src/hugr/views/sibling_subgraph.rs
index f5342ab..e182691 100644
--- a/hugr-core/src/hugr/views/sibling_subgraph.rs
+++ b/hugr-core/src/hugr/views/sibling_subgraph.rs
@@ -309,13 +309,12 @@ impl<N: HugrNode> SiblingSubgraph<N> {
         checker: &TopoConvexChecker<H>,
     ) -> Result<Self, InvalidSubgraph<N>> {
         let mut nodes: Vec<N> = nodes.into();
-        let num_nodes = nodes.len();
 
         if nodes.is_empty() {
             return Err(InvalidSubgraph::EmptySubgraph);
         }
 
-        let (inputs, outputs) = get_boundary_from_nodes(hugr, &mut nodes);
+        let (mut inputs, outputs) = get_boundary_from_nodes(hugr, &mut nodes);
 
         // If there are no input/output edges, the set is always convex so we can initialize the subgraph directly.
         // If we called `try_new_with_checker` with no boundaries, we'd select every node in the region instead of the expected subset.
@@ -328,15 +327,35 @@ impl<N: HugrNode> SiblingSubgraph<N> {
             });
         }
 
-        let mut subgraph = Self::try_new_with_checker(inputs, outputs, hugr, checker)?;
+        // Check the given nodes, rather than those found by following edges from
+        // the boundary: some may be connected to it only via other (multi-)edges,
+        // or not at all.
+        let function_calls = drain_function_calls(&mut inputs, hugr);
+        validate_subgraph(hugr, &nodes, &inputs, &outputs, &function_calls)?;
 
-        // If some nodes formed a fully connected component, they won't be included in the subgraph generated from the boundaries.
-        // We re-add them here.
-        if subgraph.node_count() < num_nodes {
-            subgraph.nodes = nodes;
+        if nodes.len() > 1 {
+            let parent = hugr
+                .get_parent(nodes[0])
+                .ok_or(InvalidSubgraph::OrphanNode { orphan: nodes[0] })?;
+            let (region, node_map) = hugr.region_portgraph(parent);
+            let boundary = make_boundary::<H>(&region, &node_map, &inputs, &outputs);
+            if !portgraph::algorithms::ConvexChecker::is_convex(
+                checker,
+                nodes.iter().map(|&n| node_map.to_portgraph(n)),
+                boundary.input_indices().iter().copied(),
+                boundary.output_indices().iter().copied(),
+            ) {
+                return Err(InvalidSubgraph::NotConvex);
+            }
+            nodes.sort_by_key(|&n| node_map.to_portgraph(n));
         }
 
-        Ok(subgraph)
+        Ok(Self {
+            nodes,
+            inputs,
+            outputs,
+            function_calls,
+        })
     }
 
     /// Create a subgraph from a set of nodes, using a line convexity checker
-- 
2.43.0


From 988b41bf89b55ddebc20ff0393d6ff33e558c01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 040/103] fix: untuple regions other than the first, unused
 outputs, polymorphic types

---
 hugr-passes/src/untuple.rs | 79 ++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 45 deletions(-)

diff --git a/hugr-passes/src/untuple.rs b/hugr-passes/src/untuple.rs
index 27a1f1f..30403e5 100644
--- a/hugr-passes/src/untuple.rs
+++ b/hugr-passes/src/untuple.rs
@@ -2,7 +2,9 @@
 
 use std::collections::VecDeque;
 
-use hugr_core::builder::{DFGBuilder, Dataflow, DataflowHugr};
+#[cfg(test)]
+use hugr_core::builder::DataflowHugr;
+use hugr_core::builder::{Container, DFGBuilder, Dataflow};
 use hugr_core::extension::prelude::{MakeTuple, UnpackTuple};
 use hugr_core::hugr::SimpleReplacementError;
 use hugr_core::hugr::hugrmut::HugrMut;
@@ -10,7 +12,7 @@ use hugr_core::hugr::views::SiblingSubgraph;
 use hugr_core::hugr::views::sibling_subgraph::TopoConvexChecker;
 use hugr_core::ops::{OpTrait, OpType};
 use hugr_core::types::Type;
-use hugr_core::{HugrView, Node, SimpleReplacement};
+use hugr_core::{HugrView, Node, PortIndex, SimpleReplacement};
 use itertools::Itertools;
 
 use crate::ComposablePass;
@@ -105,10 +107,10 @@ impl UntuplePass {
         let mut children_queue = VecDeque::new();
         children_queue.push_back(parent);
 
-        // Required to create SimpleReplacements.
-        let mut convex_checker: Option<TopoConvexChecker<H>> = None;
-
         while let Some(parent) = children_queue.pop_front() {
+            // Required to create SimpleReplacements. Specific to one region.
+            let mut convex_checker: Option<TopoConvexChecker<H>> = None;
+
             for node in hugr.children(parent) {
                 let op = hugr.get_optype(node);
                 if let Some(rw) = make_rewrite(hugr, &mut convex_checker, node, op) {
@@ -188,29 +190,24 @@ fn make_rewrite<'h, T: HugrView>(
     }
 
     // Remove all unpack operations, and remove the pack operation if all neighbours are unpacks.
-    let num_other_outputs = links.len() - unpack_nodes.len();
     Some(remove_pack_unpack(
         hugr,
         convex_checker,
         &tuple_types,
         node,
         unpack_nodes,
-        num_other_outputs,
     ))
 }
 
 /// Returns a rewrite to remove a tuple pack operation that's followed by unpack operations,
-/// and `other_tuple_links` other operations.
+/// and possibly other operations that use the tuple.
 fn remove_pack_unpack<'h, T: HugrView>(
     hugr: &'h T,
     convex_checker: &mut Option<TopoConvexChecker<'h, T>>,
     tuple_types: &[Type],
     pack_node: T::Node,
     unpack_nodes: Vec<T::Node>,
-    num_other_outputs: usize,
 ) -> SimpleReplacement<T::Node> {
-    let num_unpack_outputs = tuple_types.len() * unpack_nodes.len();
-
     let parent = hugr.get_parent(pack_node).expect("pack_node has no parent");
     let checker = convex_checker.get_or_insert_with(|| TopoConvexChecker::new(hugr, parent));
 
@@ -219,45 +216,37 @@ fn remove_pack_unpack<'h, T: HugrView>(
     let subcirc = SiblingSubgraph::try_from_nodes_with_checker(nodes, hugr, checker).unwrap();
     let subcirc_signature = subcirc.signature(hugr);
 
-    // The output port order in `SiblingSubgraph::try_from_nodes` is not too well defined.
-    // Check that the outputs are in the expected order.
-    debug_assert!(
-        itertools::equal(
-            subcirc_signature.output().iter(),
-            tuple_types
-                .iter()
-                .cycle()
-                .take(num_unpack_outputs)
-                .chain(itertools::repeat_n(
-                    &Type::new_tuple(tuple_types.to_vec()),
-                    num_other_outputs
-                ))
-        ),
-        "Unpacked tuple values must come before tupled values"
-    );
+    // The inputs of the subcircuit are the ports of the pack node.
+    debug_assert_eq!(subcirc_signature.input().as_slice(), tuple_types);
 
     let mut replacement = DFGBuilder::new(subcirc_signature).unwrap();
-    let mut outputs = Vec::with_capacity(num_unpack_outputs + num_other_outputs);
-
-    // Wire the inputs directly to the unpack outputs
-    outputs.extend(replacement.input_wires().cycle().take(num_unpack_outputs));
+    let inputs = replacement.input_wires().collect_vec();
 
+    // Wire the inputs directly to the unpack outputs (those which are used).
     // If needed, re-add the tuple pack node and connect its output to the tuple outputs.
-    if num_other_outputs > 0 {
-        let op = MakeTuple::new(tuple_types.to_vec().into());
-        let [tuple] = replacement
-            .add_dataflow_op(op, replacement.input_wires())
-            .unwrap()
-            .outputs_arr();
-        outputs.extend(std::iter::repeat_n(tuple, num_other_outputs));
-    }
+    let outputs = subcirc
+        .outgoing_ports()
+        .iter()
+        .map(|&(node, port)| {
+            if node == pack_node {
+                let op = MakeTuple::new(tuple_types.to_vec().into());
+                let [tuple] = replacement
+                    .add_dataflow_op(op, inputs.iter().copied())
+                    .unwrap()
+                    .outputs_arr();
+                tuple
+            } else {
+                inputs[port.index()]
+            }
+        })
+        .collect_vec();
 
-    // These should never fail, as we are defining the replacement ourselves.
-    let replacement = replacement
-        .finish_hugr_with_outputs(outputs)
-        .unwrap_or_else(|e| {
-            panic!("Failed to create replacement for removing tuple pack/unpack operations. {e}")
-        });
+    // This should never fail, as we are defining the replacement ourselves.
+    replacement.set_outputs(outputs).unwrap_or_else(|e| {
+        panic!("Failed to create replacement for removing tuple pack/unpack operations. {e}")
+    });
+    // Do not validate: types may contain variables of the enclosing function.
+    let replacement = std::mem::take(replacement.hugr_mut());
     subcirc
         .create_simple_replacement(hugr, replacement)
         .unwrap_or_else(|e| {
-- 
2.43.0


From f2d726cca7f761e5a8134cf7bc17e346a5208511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 041/103] fix: follow every link of a port when finding the
 nodes of a subgraph from its boundary

---
 hugr-core/src/hugr/views/sibling_subgraph.rs | 111 +++++++++++--------
 1 file changed, 67 insertions(+), 44 deletions(-)

diff --git a/hugr-core/src/hugr/views/sibling_subgraph.rs b/hugr-core/src/hugr/views/sibling_subgraph.rs
index e182691..860add5 100644
--- a/hugr-core/src/hugr/views/sibling_subgraph.rs
+++ b/hugr-core/src/hugr/views/sibling_subgraph.rs
@@ -241,17 +241,13 @@ impl<N: HugrNode> SiblingSubgraph<N> {
         hugr: &H,
         checker: &TopoConvexChecker<H>,
     ) -> Result<Self, InvalidSubgraph<N>> {
-        let (subpg, node_map) = make_pg_subgraph(hugr, &inputs, &outputs);
-        let nodes = subpg
-            .nodes_iter()
-            .map(|index| node_map.from_portgraph(index))
-            .collect_vec();
+        let (nodes, node_map, boundary) = nodes_in_boundary(hugr, &inputs, &outputs);
 
         let function_calls = drain_function_calls(&mut inputs, hugr);
 
         validate_subgraph(hugr, &nodes, &inputs, &outputs, &function_calls)?;
 
-        if nodes.len() > 1 && !subpg.is_convex_with_checker(checker) {
+        if !is_convex(checker, &nodes, &node_map, &boundary) {
             return Err(InvalidSubgraph::NotConvex);
         }
 
@@ -333,22 +329,15 @@ impl<N: HugrNode> SiblingSubgraph<N> {
         let function_calls = drain_function_calls(&mut inputs, hugr);
         validate_subgraph(hugr, &nodes, &inputs, &outputs, &function_calls)?;
 
-        if nodes.len() > 1 {
-            let parent = hugr
-                .get_parent(nodes[0])
-                .ok_or(InvalidSubgraph::OrphanNode { orphan: nodes[0] })?;
-            let (region, node_map) = hugr.region_portgraph(parent);
-            let boundary = make_boundary::<H>(&region, &node_map, &inputs, &outputs);
-            if !portgraph::algorithms::ConvexChecker::is_convex(
-                checker,
-                nodes.iter().map(|&n| node_map.to_portgraph(n)),
-                boundary.input_indices().iter().copied(),
-                boundary.output_indices().iter().copied(),
-            ) {
-                return Err(InvalidSubgraph::NotConvex);
-            }
-            nodes.sort_by_key(|&n| node_map.to_portgraph(n));
+        let parent = hugr
+            .get_parent(nodes[0])
+            .ok_or(InvalidSubgraph::OrphanNode { orphan: nodes[0] })?;
+        let (region, node_map) = hugr.region_portgraph(parent);
+        let boundary = make_boundary::<H>(&region, &node_map, &inputs, &outputs);
+        if !is_convex(checker, &nodes, &node_map, &boundary) {
+            return Err(InvalidSubgraph::NotConvex);
         }
+        nodes.sort_by_key(|&n| node_map.to_portgraph(n));
 
         Ok(Self {
             nodes,
@@ -485,13 +474,8 @@ impl<N: HugrNode> SiblingSubgraph<N> {
         hugr: &'h H,
         mode: ValidationMode<'_, 'h, H>,
     ) -> Result<(), InvalidSubgraph<N>> {
-        let mut exp_nodes = {
-            let (subpg, node_map) = make_pg_subgraph(hugr, &self.inputs, &self.outputs);
-            subpg
-                .nodes_iter()
-                .map(|n| node_map.from_portgraph(n))
-                .collect_vec()
-        };
+        let (mut exp_nodes, node_map, boundary) =
+            nodes_in_boundary(hugr, &self.inputs, &self.outputs);
         let mut nodes = self.nodes.clone();
 
         exp_nodes.sort_unstable();
@@ -519,8 +503,7 @@ impl<N: HugrNode> SiblingSubgraph<N> {
             ValidationMode::SkipConvexity => None,
         };
         if let Some(checker) = checker_ref {
-            let (subpg, _) = make_pg_subgraph(hugr, &self.inputs, &self.outputs);
-            if !subpg.is_convex_with_checker(&checker.init_checker().0) {
+            if !is_convex(checker, &self.nodes, &node_map, &boundary) {
                 return Err(InvalidSubgraph::NotConvex);
             }
         }
@@ -748,20 +731,19 @@ pub enum ValidationMode<'t, 'h, H: HugrView> {
     SkipConvexity,
 }
 
-fn make_pg_subgraph<'h, H: HugrView>(
-    hugr: &'h H,
+/// The nodes "between" the given boundary ports, see [`SiblingSubgraph::try_new`],
+/// in order of their indices in the region graph, together with the boundary.
+///
+/// If there are no boundary ports then these are all nodes in the region of the
+/// entrypoint.
+fn nodes_in_boundary<H: HugrView>(
+    hugr: &H,
     inputs: &IncomingPorts<H::Node>,
     outputs: &OutgoingPorts<H::Node>,
-) -> (
-    portgraph::view::Subgraph<CheckerRegion<'h, H>>,
-    H::RegionPortgraphNodes,
-) {
+) -> (Vec<H::Node>, H::RegionPortgraphNodes, Boundary) {
     // Pick the hugr region that contains the boundary nodes.
     // If the nodes are not in the same region, we'll fail the convexity check later on.
-    let mut io_nodes = inputs
-        .iter()
-        .flat_map(|inps| inps.iter().map(|(n, _)| *n))
-        .chain(outputs.iter().map(|(n, _)| *n));
+    let mut io_nodes = iter_io(inputs, outputs).map(|(n, _)| n);
     let hugr_region = io_nodes
         .next()
         .and_then(|n| hugr.get_parent(n))
@@ -772,10 +754,51 @@ fn make_pg_subgraph<'h, H: HugrView>(
     // Ordering of the edges here is preserved and becomes ordering of the
     // signature.
     let boundary = make_boundary::<H>(&region, &node_map, inputs, outputs);
-    (
-        portgraph::view::Subgraph::new_subgraph(region, boundary),
-        node_map,
-    )
+
+    let boundary_ports: FxHashSet<(H::Node, Port)> = iter_io(inputs, outputs).collect();
+    let mut to_visit: Vec<H::Node> = boundary_ports.iter().map(|&(n, _)| n).collect();
+    if to_visit.is_empty() {
+        to_visit = hugr.children(hugr_region).collect();
+    }
+    let mut nodes: FxHashSet<H::Node> = to_visit.iter().copied().collect();
+    while let Some(n) = to_visit.pop() {
+        for p in hugr.all_node_ports(n) {
+            if boundary_ports.contains(&(n, p)) {
+                continue;
+            }
+            // Follow every link, there may be many on an outgoing port
+            for (n2, p2) in hugr.linked_ports(n, p) {
+                // The other end may be a port of the boundary on the side inside
+                // the subgraph, in which case its node is known already.
+                if hugr.get_parent(n2) == Some(hugr_region)
+                    && !boundary_ports.contains(&(n2, p2))
+                    && nodes.insert(n2)
+                {
+                    to_visit.push(n2);
+                }
+            }
+        }
+    }
+    let nodes = nodes
+        .into_iter()
+        .sorted_by_key(|&n| node_map.to_portgraph(n))
+        .collect();
+    (nodes, node_map, boundary)
+}
+
+/// Whether the given nodes, with the given boundary, are convex.
+fn is_convex<N: HugrNode>(
+    checker: &impl portgraph::algorithms::ConvexChecker,
+    nodes: &[N],
+    node_map: &impl PortgraphNodeMap<N>,
+    boundary: &Boundary,
+) -> bool {
+    nodes.len() <= 1
+        || checker.is_convex(
+            nodes.iter().map(|&n| node_map.to_portgraph(n)),
+            boundary.input_indices().iter().copied(),
+            boundary.output_indices().iter().copied(),
+        )
 }
 
 /// Returns the input and output boundary ports for a given set of nodes.
-- 
2.43.0


From 6b472a544e2914fd7685a3673c0ef875bac46575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 042/103] fix: order edges, siblings and repeated function
 ports in subgraph boundaries

---
 hugr-core/src/hugr/views/sibling_subgraph.rs | 49 +++-----------------
 1 file changed, 7 insertions(+), 42 deletions(-)

diff --git a/hugr-core/src/hugr/views/sibling_subgraph.rs b/hugr-core/src/hugr/views/sibling_subgraph.rs
index 860add5..f76b7b8 100644
--- a/hugr-core/src/hugr/views/sibling_subgraph.rs
+++ b/hugr-core/src/hugr/views/sibling_subgraph.rs
@@ -312,17 +312,6 @@ impl<N: HugrNode> SiblingSubgraph<N> {
 
         let (mut inputs, outputs) = get_boundary_from_nodes(hugr, &mut nodes);
 
-        // If there are no input/output edges, the set is always convex so we can initialize the subgraph directly.
-        // If we called `try_new_with_checker` with no boundaries, we'd select every node in the region instead of the expected subset.
-        if inputs.is_empty() && outputs.is_empty() {
-            return Ok(Self {
-                nodes,
-                inputs,
-                outputs,
-                function_calls: vec![],
-            });
-        }
-
         // Check the given nodes, rather than those found by following edges from
         // the boundary: some may be connected to it only via other (multi-)edges,
         // or not at all.
@@ -369,38 +358,16 @@ impl<N: HugrNode> SiblingSubgraph<N> {
             return Err(InvalidSubgraph::NotConvex);
         }
 
-        let nodes: Vec<N> = nodes.into();
+        let mut nodes: Vec<N> = nodes.into();
         let hugr = line_checker.hugr();
 
         if nodes.is_empty() {
             return Err(InvalidSubgraph::EmptySubgraph);
         }
 
-        let nodes_set = nodes.iter().copied().collect::<HashSet<_>>();
-        let incoming_edges = nodes
-            .iter()
-            .flat_map(|&n| hugr.node_inputs(n).map(move |p| (n, p)));
-        let outgoing_edges = nodes
-            .iter()
-            .flat_map(|&n| hugr.node_outputs(n).map(move |p| (n, p)));
-        let mut inputs = incoming_edges
-            .filter(|&(n, p)| {
-                if !hugr.is_linked(n, p) {
-                    return false;
-                }
-                let (out_n, _) = hugr.single_linked_output(n, p).unwrap();
-                !nodes_set.contains(&out_n)
-            })
-            // Every incoming edge is its own input.
-            .map(|p| vec![p])
-            .collect_vec();
-        let outputs = outgoing_edges
-            .filter(|&(n, p)| {
-                hugr.linked_ports(n, p)
-                    .any(|(n1, _)| !nodes_set.contains(&n1))
-            })
-            .collect_vec();
+        let (mut inputs, outputs) = get_boundary_from_nodes(hugr, &mut nodes);
         let function_calls = drain_function_calls(&mut inputs, hugr);
+        validate_subgraph(hugr, &nodes, &inputs, &outputs, &function_calls)?;
 
         Ok(Self {
             nodes,
@@ -822,11 +789,9 @@ fn get_boundary_from_nodes<N: HugrNode>(
 
     let inputs = incoming_edges
         .filter(|&(n, p)| {
-            if !hugr.is_linked(n, p) {
-                return false;
-            }
-            let (out_n, _) = hugr.single_linked_output(n, p).unwrap();
-            !nodes_set.contains(&out_n)
+            // Order ports may be linked to any number of nodes
+            hugr.linked_outputs(n, p)
+                .any(|(out_n, _)| !nodes_set.contains(&out_n))
         })
         // Every incoming edge is its own input.
         .map(|p| vec![p])
@@ -1299,7 +1264,7 @@ fn validate_subgraph<H: HugrView>(
     }
 
     // Check inputs are unique
-    if !inputs.iter().flatten().all_unique() {
+    if !inputs.iter().chain(function_calls).flatten().all_unique() {
         return Err(InvalidSubgraphBoundary::NonUniqueInput.into());
     }
 
-- 
2.43.0


From f3a858083d0d78e234287ad03eec5b77cff7256e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:38 +0000
Subject: [PATCH 043/103] fix: verify and apply of a Replacement agree

---
 hugr-core/src/hugr/patch/replace.rs | 42 ++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/hugr-core/src/hugr/patch/replace.rs b/hugr-core/src/hugr/patch/replace.rs
index ba4104a..dd49923 100644
--- a/hugr-core/src/hugr/patch/replace.rs
+++ b/hugr-core/src/hugr/patch/replace.rs
@@ -8,10 +8,9 @@ use thiserror::Error;
 use crate::core::HugrNode;
 use crate::hugr::HugrMut;
 use crate::hugr::hugrmut::InsertionResult;
-use crate::hugr::views::check_valid_non_entrypoint;
 use crate::ops::{OpTag, OpTrait};
 use crate::types::EdgeKind;
-use crate::{Direction, Hugr, HugrView, IncomingPort, Node, OutgoingPort};
+use crate::{Direction, Hugr, HugrView, IncomingPort, Node, OutgoingPort, PortIndex};
 
 use super::{PatchHugrMut, PatchVerification};
 
@@ -110,7 +109,9 @@ impl<SrcNode: Copy, TgtNode: Copy> NewEdgeSpec<SrcNode, TgtNode> {
                 .as_ref()
                 .is_some_and(EdgeKind::is_static),
             NewEdgeKind::ControlFlow { src_pos } => {
-                matches!(optype.port_kind(src_pos), Some(EdgeKind::ControlFlow))
+                // The kind of port is the same for any index, existing or not
+                src_pos.index() < optype.output_count()
+                    && matches!(optype.port_kind(src_pos), Some(EdgeKind::ControlFlow))
             }
         };
         ok.then_some(())
@@ -169,6 +170,22 @@ impl<HostNode: HugrNode, N: Clone> NewEdgeSpec<N, HostNode> {
         }
         Ok(())
     }
+
+    /// Checks that no other new edge has replaced the same existing edge.
+    fn check_replaced_once(
+        &self,
+        replaced: &mut HashSet<(HostNode, IncomingPort)>,
+        err_edge: impl Fn(Self) -> WhichEdgeSpec<HostNode>,
+    ) -> Result<(), ReplaceError<HostNode>> {
+        match self.kind {
+            NewEdgeKind::Static { tgt_pos, .. } | NewEdgeKind::Value { tgt_pos, .. }
+                if !replaced.insert((self.tgt, tgt_pos)) =>
+            {
+                Err(ReplaceError::NoRemovedEdge(err_edge(self.clone())))
+            }
+            _ => Ok(()),
+        }
+    }
 }
 
 impl<HostNode: HugrNode> Replacement<HostNode> {
@@ -199,13 +216,20 @@ impl<HostNode: HugrNode> Replacement<HostNode> {
         Ok(parent)
     }
 
+    /// The nodes of [`Self::replacement`] that will be inserted into the host,
+    /// i.e. strict descendants of its entrypoint.
+    fn inserted_nodes(&self) -> HashSet<Node> {
+        self.replacement.entry_descendants().skip(1).collect()
+    }
+
     fn get_removed_nodes(
         &self,
         h: &impl HugrView<Node = HostNode>,
     ) -> Result<HashSet<HostNode>, ReplaceError<HostNode>> {
         // Check the keys of the transfer map too, the values we'll use imminently
+        let inserted = self.inserted_nodes();
         self.adoptions.keys().try_for_each(|&n| {
-            (self.replacement.contains_node(n)
+            (inserted.contains(&n)
                 && self.replacement.get_optype(n).is_container()
                 && self.replacement.children(n).next().is_none())
             .then_some(())
@@ -247,6 +271,7 @@ impl<HostNode: HugrNode> PatchVerification for Replacement<HostNode> {
     fn verify(&self, h: &impl HugrView<Node = HostNode>) -> Result<(), Self::Error> {
         self.check_parent(h)?;
         let removed = self.get_removed_nodes(h)?;
+        let inserted = self.inserted_nodes();
         // Edge sources...
         for e in &self.mu_inp {
             if !h.contains_node(e.src) || removed.contains(&e.src) {
@@ -267,7 +292,7 @@ impl<HostNode: HugrNode> PatchVerification for Replacement<HostNode> {
             e.check_src(h, WhichEdgeSpec::HostToHost)?;
         }
         self.mu_out.iter().try_for_each(|e| {
-            if check_valid_non_entrypoint(&self.replacement, e.src) {
+            if inserted.contains(&e.src) {
                 e.check_src(&self.replacement, WhichEdgeSpec::ReplToHost)
             } else {
                 Err(ReplaceError::BadEdgeSpec(
@@ -278,7 +303,7 @@ impl<HostNode: HugrNode> PatchVerification for Replacement<HostNode> {
         })?;
         // Edge targets...
         self.mu_inp.iter().try_for_each(|e| {
-            if check_valid_non_entrypoint(&self.replacement, e.tgt) {
+            if inserted.contains(&e.tgt) {
                 e.check_tgt(&self.replacement, WhichEdgeSpec::HostToRepl)
             } else {
                 Err(ReplaceError::BadEdgeSpec(
@@ -287,6 +312,8 @@ impl<HostNode: HugrNode> PatchVerification for Replacement<HostNode> {
                 ))
             }
         })?;
+        // Each existing edge can be replaced only once
+        let mut replaced = HashSet::new();
         for e in &self.mu_out {
             if !h.contains_node(e.tgt) || removed.contains(&e.tgt) {
                 return Err(ReplaceError::BadEdgeSpec(
@@ -301,6 +328,7 @@ impl<HostNode: HugrNode> PatchVerification for Replacement<HostNode> {
             // the first "removed.contains" check, we'll keep that as a common-case
             // fast-path.
             e.check_existing_edge(h, &removed, WhichEdgeSpec::ReplToHost)?;
+            e.check_replaced_once(&mut replaced, WhichEdgeSpec::ReplToHost)?;
         }
         for e in &self.mu_new {
             if !h.contains_node(e.tgt) || removed.contains(&e.tgt) {
@@ -316,6 +344,7 @@ impl<HostNode: HugrNode> PatchVerification for Replacement<HostNode> {
             // the first "removed.contains" check, we'll keep that as a common-case
             // fast-path.
             e.check_existing_edge(h, &removed, WhichEdgeSpec::HostToHost)?;
+            e.check_replaced_once(&mut replaced, WhichEdgeSpec::HostToHost)?;
         }
         Ok(())
     }
@@ -338,6 +367,7 @@ impl<HostNode: HugrNode> PatchHugrMut for Replacement<HostNode> {
         self,
         h: &mut impl HugrMut<Node = HostNode>,
     ) -> Result<Self::Outcome, Self::Error> {
+        self.verify(h)?;
         let parent = self.check_parent(h)?;
         // Calculate removed nodes here. (Does not include transfers, so enumerates only
         // nodes we are going to remove, individually, anyway; so no *asymptotic* speed
-- 
2.43.0


From 6b2e8e0977a533e424bcae4001458f71a8d97b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:38 +0000
Subject: [PATCH 044/103] fix: replace subgraphs with repeated outputs

---
 hugr-core/src/hugr/patch/simple_replace.rs | 33 ++++++++++------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/hugr-core/src/hugr/patch/simple_replace.rs b/hugr-core/src/hugr/patch/simple_replace.rs
index 46e5bde..8f02ebe 100644
--- a/hugr-core/src/hugr/patch/simple_replace.rs
+++ b/hugr-core/src/hugr/patch/simple_replace.rs
@@ -357,15 +357,8 @@ impl<HostNode: HugrNode> SimpleReplacement<HostNode> {
             HostPort<HostNode, IncomingPort>,
         ),
     > + 'a {
-        // The incoming ports at the output boundary of `subgraph`
-        let subgraph_incoming_ports = self.subgraph.outgoing_ports().iter().map(
-            move |&(subgraph_out_node, subgraph_out_port)| {
-                host.linked_inputs(subgraph_out_node, subgraph_out_port)
-            },
-        );
-
-        subgraph_incoming_ports
-            .enumerate()
+        self.unique_outgoing_ports()
+            .map(move |(pos, (node, port))| (pos, host.linked_inputs(node, port)))
             .filter_map(|(pos, subg_all)| {
                 let np = self
                     .linked_replacement_output_by_position(pos, host, BoundaryMode::SnapToHost)
@@ -381,6 +374,17 @@ impl<HostNode: HugrNode> SimpleReplacement<HostNode> {
             })
     }
 
+    /// The output boundary ports of `subgraph`, with their positions.
+    ///
+    /// A port that is repeated in the boundary is returned only once, with its
+    /// first position, as every port linked to it has to get a single new source.
+    fn unique_outgoing_ports(
+        &self,
+    ) -> impl Iterator<Item = (usize, (HostNode, OutgoingPort))> + '_ {
+        let ports = self.subgraph.outgoing_ports().iter().copied();
+        ports.enumerate().unique_by(|&(_, node_port)| node_port)
+    }
+
     /// Get all edges that the replacement would add between ports in `host`.
     ///
     /// These correspond to direct edges between the input and output nodes
@@ -404,15 +408,8 @@ impl<HostNode: HugrNode> SimpleReplacement<HostNode> {
             HostPort<HostNode, IncomingPort>,
         ),
     > + 'a {
-        // The incoming ports at the output boundary of `subgraph`
-        let subgraph_incoming_ports = self.subgraph.outgoing_ports().iter().map(
-            move |&(subgraph_out_node, subgraph_out_port)| {
-                host.linked_inputs(subgraph_out_node, subgraph_out_port)
-            },
-        );
-
-        subgraph_incoming_ports
-            .enumerate()
+        self.unique_outgoing_ports()
+            .map(move |(pos, (node, port))| (pos, host.linked_inputs(node, port)))
             .filter_map(|(pos, subg_all)| {
                 Some((
                     self.linked_replacement_output_by_position(pos, host, BoundaryMode::SnapToHost)
-- 
2.43.0


From ce2a79518dbaa70ee119f85c6adbdddd8f67c063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 045/103] fix: inline calls to a function from within itself

---
 hugr-core/src/hugr/hugrmut.rs           | 19 +++++++++++++------
 hugr-core/src/hugr/patch/inline_call.rs | 22 ++++++++++------------
 2 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/hugr-core/src/hugr/hugrmut.rs b/hugr-core/src/hugr/hugrmut.rs
index 3a1564c..b501b59 100644
--- a/hugr-core/src/hugr/hugrmut.rs
+++ b/hugr-core/src/hugr/hugrmut.rs
@@ -623,15 +623,22 @@ impl HugrMut for Hugr {
         let node_map =
             translate_indices(Into::into, Into::into, node_map).collect::<BTreeMap<_, _>>();
 
-        for node in self.children(root).collect::<Vec<_>>() {
-            self.set_parent(*node_map.get(&node).unwrap(), new_parent);
+        // Copy the hierarchy. (List all children first: `new_parent` may be a descendant of `root`)
+        let children = node_map
+            .keys()
+            .copied()
+            .chain([root])
+            .map(|parent| (parent, self.children(parent).collect::<Vec<_>>()))
+            .collect::<Vec<_>>();
+        for (parent, children) in children {
+            let copied_parent = node_map.get(&parent).copied().unwrap_or(new_parent);
+            for ch in children {
+                self.set_parent(node_map[&ch], copied_parent);
+            }
         }
 
-        // Copy the optypes, metadata, and hierarchy
+        // Copy the optypes and metadata
         for (&node, &new_node) in &node_map {
-            for ch in self.children(node).collect::<Vec<_>>() {
-                self.set_parent(*node_map.get(&ch).unwrap(), new_node);
-            }
             let new_optype = match (&subst, self.get_optype(node)) {
                 (None, op) => op.clone(),
                 (Some(subst), op) => op.substitute(subst),
diff --git a/hugr-core/src/hugr/patch/inline_call.rs b/hugr-core/src/hugr/patch/inline_call.rs
index 09ae6d5..2710b62 100644
--- a/hugr-core/src/hugr/patch/inline_call.rs
+++ b/hugr-core/src/hugr/patch/inline_call.rs
@@ -63,6 +63,15 @@ impl<N: HugrNode> PatchHugrMut for InlineCall<N> {
         self.verify(h)?; // Now we know we have a Call to a FuncDefn.
         let orig_func = h.static_source(self.0).unwrap();
 
+        // Copy the body before changing the call: it is part of the body if the
+        // function calls itself, and has to be copied as such.
+        let ty_args = h.get_optype(self.0).as_call().unwrap().type_args.clone();
+        h.copy_descendants(
+            orig_func,
+            self.0,
+            (!ty_args.is_empty()).then_some(Substitution::new(&ty_args)),
+        );
+
         h.disconnect(self.0, h.get_optype(self.0).static_input_port().unwrap());
 
         // The order input port gets renumbered because the static input
@@ -82,12 +91,7 @@ impl<N: HugrNode> PatchHugrMut for InlineCall<N> {
         });
         let new_order_in = new_op.other_input_port().unwrap();
 
-        let ty_args = h
-            .replace_op(self.0, new_op)
-            .as_call()
-            .unwrap()
-            .type_args
-            .clone();
+        h.replace_op(self.0, new_op);
 
         h.add_ports(self.0, Direction::Incoming, -1);
 
@@ -95,12 +99,6 @@ impl<N: HugrNode> PatchHugrMut for InlineCall<N> {
         for (src, srcp) in order_preds {
             h.connect(src, srcp, self.0, new_order_in);
         }
-
-        h.copy_descendants(
-            orig_func,
-            self.0,
-            (!ty_args.is_empty()).then_some(Substitution::new(&ty_args)),
-        );
         Ok(())
     }
 
-- 
2.43.0


From 4ae4eab8b2e4a4fc955d8e2937df0739ee9c83ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 046/103] fix: remove constant loads with order edges

---
 hugr-core/src/hugr/patch/consts.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hugr-core/src/hugr/patch/consts.rs b/hugr-core/src/hugr/patch/consts.rs
index dcdeea5..a500129 100644
--- a/hugr-core/src/hugr/patch/consts.rs
+++ b/hugr-core/src/hugr/patch/consts.rs
@@ -64,9 +64,7 @@ impl<N: HugrNode> PatchHugrMut for RemoveLoadConstant<N> {
         self.verify(h)?;
         let node = self.0;
         let source = h
-            .input_neighbours(node)
-            .exactly_one()
-            .ok()
+            .static_source(node)
             .expect("Validation should check a Const is connected to LoadConstant.");
         h.remove_node(node);
 
-- 
2.43.0


From 79645a14fafdf1da387f908e5e26d3de1641ccf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 047/103] fix: verification of inserted identities

---
 hugr-core/src/hugr/patch/insert_identity.rs | 32 +++++++++++----------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/hugr-core/src/hugr/patch/insert_identity.rs b/hugr-core/src/hugr/patch/insert_identity.rs
index 725a0dd..480e8a6 100644
--- a/hugr-core/src/hugr/patch/insert_identity.rs
+++ b/hugr-core/src/hugr/patch/insert_identity.rs
@@ -52,18 +52,22 @@ impl<N: HugrNode> PatchVerification for IdentityInsertion<N> {
     type Error = IdentityInsertionError;
     type Node = N;
 
-    fn verify(&self, _h: &impl HugrView) -> Result<(), IdentityInsertionError> {
-        /*
-        Assumptions:
-        1. Value kind inputs can only have one connection.
-        2. Node exists.
-        Conditions:
-        1. post_port is Value kind.
-        2. post_port is connected to a sibling of post_node.
-        3. post_port is input.
-         */
-
-        unimplemented!()
+    fn verify(&self, h: &impl HugrView<Node = N>) -> Result<(), IdentityInsertionError> {
+        // Value kind inputs have exactly one connection, if the Hugr is valid.
+        if !h.contains_node(self.post_node) {
+            return Err(IdentityInsertionError::InvalidNode());
+        }
+        let kind = h.get_optype(self.post_node).port_kind(self.post_port);
+        let Some(EdgeKind::Value(_)) = kind else {
+            return Err(IdentityInsertionError::InvalidPortKind(kind));
+        };
+        let parent = h
+            .get_parent(self.post_node)
+            .ok_or(IdentityInsertionError::InvalidParentNode)?;
+        if !OpTag::DataflowParent.is_superset(h.get_optype(parent).tag()) {
+            return Err(IdentityInsertionError::InvalidParentNode);
+        }
+        Ok(())
     }
 
     #[inline]
@@ -85,6 +89,7 @@ impl<N: HugrNode> PatchHugrMut for IdentityInsertion<N> {
         self,
         h: &mut impl HugrMut<Node = N>,
     ) -> Result<Self::Outcome, IdentityInsertionError> {
+        self.verify(h)?;
         let kind = h.get_optype(self.post_node).port_kind(self.post_port);
         let Some(EdgeKind::Value(ty)) = kind else {
             return Err(IdentityInsertionError::InvalidPortKind(kind));
@@ -98,9 +103,6 @@ impl<N: HugrNode> PatchHugrMut for IdentityInsertion<N> {
         let parent = h
             .get_parent(self.post_node)
             .ok_or(IdentityInsertionError::InvalidParentNode)?;
-        if !OpTag::DataflowParent.is_superset(h.get_optype(parent).tag()) {
-            return Err(IdentityInsertionError::InvalidParentNode);
-        }
         let new_node = h.add_node_with_parent(parent, Noop(ty));
         h.connect(pre_node, pre_port, new_node, 0);
 
-- 
2.43.0


From d10cffd674fd40b746054818459d246ff194f0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 048/103] fix: verification of inserted cuts

---
 hugr-core/src/hugr/patch/insert_cut.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hugr-core/src/hugr/patch/insert_cut.rs b/hugr-core/src/hugr/patch/insert_cut.rs
index 518c75c..7085238 100644
--- a/hugr-core/src/hugr/patch/insert_cut.rs
+++ b/hugr-core/src/hugr/patch/insert_cut.rs
@@ -8,7 +8,7 @@ use crate::hugr::patch::inline_dfg::InlineDFG;
 use crate::hugr::{HugrMut, Node};
 use crate::ops::{DataflowOpTrait, OpTag, OpTrait, OpType};
 
-use crate::{Hugr, HugrView, IncomingPort};
+use crate::{Hugr, HugrView, IncomingPort, PortIndex};
 
 use super::inline_dfg::InlineDFGError;
 use super::{Patch, PatchHugrMut, PatchVerification};
@@ -109,7 +109,9 @@ impl<N: HugrNode> PatchVerification for InsertCut<N> {
                 return Err(InsertCutError::InvalidNode(*node));
             }
 
-            let n_links = h.linked_outputs(*node, *port).count();
+            let has_port = port.index() < h.num_inputs(*node);
+            let n_links = has_port.then(|| h.linked_outputs(*node, *port).count());
+            let n_links = n_links.unwrap_or(0);
             if n_links != 1 {
                 return Err(InsertCutError::InvalidIncomingPort(n_links));
             }
@@ -135,6 +137,7 @@ impl PatchHugrMut for InsertCut<Node> {
         self,
         h: &mut impl HugrMut<Node = Node>,
     ) -> Result<Self::Outcome, InsertCutError> {
+        self.verify(h)?;
         let insert_res = h.insert_hugr(self.parent, self.insertion);
         let inserted_entrypoint = insert_res.inserted_entrypoint;
         for (i, (target, port)) in self.targets.into_iter().enumerate() {
-- 
2.43.0


From ee580b1fe44ec6a1ab135704844044488c3f7da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 049/103] fix: do not outline exit blocks or blocks whose
 values are used outside

---
 hugr-core/src/hugr/patch/outline_cfg.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/hugr/patch/outline_cfg.rs b/hugr-core/src/hugr/patch/outline_cfg.rs
index 081ba24..2c602fa 100644
--- a/hugr-core/src/hugr/patch/outline_cfg.rs
+++ b/hugr-core/src/hugr/patch/outline_cfg.rs
@@ -50,7 +50,11 @@ impl OutlineCfg {
         let OpType::CFG(_) = o else {
             return Err(OutlineCfgError::ParentNotCfg(cfg_n, Box::new(o.clone())));
         };
-        let cfg_entry = h.children(cfg_n).next().unwrap();
+        // These panic()s only happen if the Hugr would not have passed validate()
+        let (cfg_entry, cfg_exit) = h.children(cfg_n).take(2).collect_tuple().unwrap();
+        if self.blocks.contains(&cfg_exit) {
+            return Err(OutlineCfgError::ContainsExitBlock(cfg_exit));
+        }
         let mut entry = None;
         let mut exit_succ = None;
         for &n in &self.blocks {
@@ -81,6 +85,17 @@ impl OutlineCfg {
                 Err(ext) => return Err(OutlineCfgError::MultipleExitEdges(n, ext.collect())),
             }
         }
+        // Values used by later blocks cannot be moved into a nested CFG
+        for src in self.blocks.iter().flat_map(|n| h.children(*n)) {
+            let used_outside = h.output_neighbours(src).any(|tgt| {
+                std::iter::successors(Some(tgt), |n| h.get_parent(*n))
+                    .find(|n| h.get_parent(*n) == Some(cfg_n))
+                    .is_none_or(|block| !self.blocks.contains(&block))
+            });
+            if used_outside {
+                return Err(OutlineCfgError::UsedOutside(src));
+            }
+        }
         match (entry, exit_succ) {
             (Some(e), Some((x, o))) => Ok((e, x, o)),
             (None, _) => Err(OutlineCfgError::NoEntryNode),
@@ -216,6 +231,12 @@ pub enum OutlineCfgError {
     /// The parent node was not a CFG node
     #[error("The parent node {0} was not a CFG but a {1}")]
     ParentNotCfg(Node, Box<OpType>),
+    /// The set contained the exit block of the CFG
+    #[error("The set contained the exit block {0}")]
+    ContainsExitBlock(Node),
+    /// A block of the set computes a value that is used by a block outside the set
+    #[error("The output of {0} is used outside the set")]
+    UsedOutside(Node),
     /// Multiple blocks had incoming edges
     #[error("Multiple blocks had predecessors outside the set - at least {0} and {1}")]
     MultipleEntryNodes(Node, Node),
-- 
2.43.0


From 6dbe0ce4890ee39c677bf09ce24e784c3afb4879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 050/103] fix: peeled iterations come before the rest of the
 loop

---
 hugr-core/src/hugr/patch/peel_loop.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/hugr-core/src/hugr/patch/peel_loop.rs b/hugr-core/src/hugr/patch/peel_loop.rs
index ccb9218..2a23e41 100644
--- a/hugr-core/src/hugr/patch/peel_loop.rs
+++ b/hugr-core/src/hugr/patch/peel_loop.rs
@@ -1,6 +1,7 @@
 //! Rewrite to peel one iteration of a [TailLoop], creating a [DFG] containing a copy of
 //! the loop body, and a [Conditional] containing the original `TailLoop` node.
 use derive_more::{Display, Error};
+use itertools::Itertools;
 
 use crate::core::HugrNode;
 use crate::ops::{
@@ -90,6 +91,21 @@ impl<N: HugrNode> PatchHugrMut for PeelTailLoop<N> {
         // This preserves all edges from the end of the loop body to the conditional:
         h.replace_op(dfg_out, cond);
         let cond_n = dfg_out;
+        // All of the first iteration comes before the test and the rest of the loop.
+        // Nodes with successors in the body lead (indirectly) to one without.
+        let ends = h
+            .children(self.0)
+            .filter(|&ch| {
+                ch != cond_n
+                    && h.get_optype(ch).other_output_port().is_some()
+                    && !h
+                        .output_neighbours(ch)
+                        .any(|tgt| h.get_parent(tgt) == Some(self.0))
+            })
+            .collect_vec();
+        for end in ends {
+            h.add_other_edge(end, cond_n);
+        }
         h.add_ports(cond_n, Direction::Outgoing, loop_out.len() as isize + 1);
         let dfg_out = h.add_node_before(
             cond_n,
-- 
2.43.0


From 4c6876ff21d2692cb2723e37492c861f822b314d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 051/103] fix: dataflow analysis of calls to function
 declarations

---
 hugr-passes/src/dataflow/datalog.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/hugr-passes/src/dataflow/datalog.rs b/hugr-passes/src/dataflow/datalog.rs
index c3ea768..c97d406 100644
--- a/hugr-passes/src/dataflow/datalog.rs
+++ b/hugr-passes/src/dataflow/datalog.rs
@@ -369,6 +369,13 @@ pub(super) fn run_datalog<V: AbstractValue, H: HugrView>(
             output_child(func, outp),
             in_wire_value(outp, p, v);
 
+        // A `FuncDecl` has no body, so we know nothing about what it returns
+        out_wire_value(call, p, PV::Top) <--
+            func_call(call, func),
+            if hugr.get_optype(*func).is_func_decl(),
+            if let Some(sig) = hugr.signature(*call),
+            for p in sig.output_ports();
+
         // CallIndirect --------------------
         lattice indirect_call(H::Node, LatticeWrapper<H::Node>); // <Node> is an `IndirectCall` to `FuncDefn` <Node>
         indirect_call(call, tgt) <--
@@ -390,6 +397,14 @@ pub(super) fn run_datalog<V: AbstractValue, H: HugrView>(
             output_child(func, outp),
             in_wire_value(outp, p, v);
 
+        // As for (direct) `Call`s to a `FuncDecl`
+        out_wire_value(call, p, PV::Top) <--
+            indirect_call(call, lv),
+            if let LatticeWrapper::Value(func) = lv,
+            if hugr.get_optype(*func).is_func_decl(),
+            if let Some(sig) = hugr.signature(*call),
+            for p in sig.output_ports();
+
         // Default out-value is Bottom, but if we can't determine the called function,
         // assign everything to Top
         out_wire_value(call, p, PV::Top) <--
-- 
2.43.0


From 9a4fdac0a4cb76bfe7dd41378527c773e6b61874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 052/103] fix: join and meet of functions loaded with different
 type arguments

---
 hugr-passes/src/dataflow/partial_value.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/hugr-passes/src/dataflow/partial_value.rs b/hugr-passes/src/dataflow/partial_value.rs
index 3ca23fb..075eb71 100644
--- a/hugr-passes/src/dataflow/partial_value.rs
+++ b/hugr-passes/src/dataflow/partial_value.rs
@@ -452,10 +452,7 @@ impl<V: AbstractValue, N: PartialEq + PartialOrd> Lattice for PartialValue<V, N>
                 Some((h3, b)) => (Self::Value(h3), b),
                 None => (Self::Top, true),
             },
-            (Self::LoadedFunction(lf1), Self::LoadedFunction(lf2))
-                if lf1.func_node == lf2.func_node =>
-            {
-                // TODO we should also join the TypeArgs but at the moment these are ignored
+            (Self::LoadedFunction(lf1), Self::LoadedFunction(lf2)) if lf1 == lf2 => {
                 (Self::LoadedFunction(lf1), false)
             }
             (Self::PartialSum(mut ps1), Self::PartialSum(ps2)) => match ps1.try_join_mut(ps2) {
@@ -479,10 +476,7 @@ impl<V: AbstractValue, N: PartialEq + PartialOrd> Lattice for PartialValue<V, N>
                 Some((h3, ch)) => (Self::Value(h3), ch),
                 None => (Self::Bottom, true),
             },
-            (Self::LoadedFunction(lf1), Self::LoadedFunction(lf2))
-                if lf1.func_node == lf2.func_node =>
-            {
-                // TODO we should also meet the TypeArgs but at the moment these are ignored
+            (Self::LoadedFunction(lf1), Self::LoadedFunction(lf2)) if lf1 == lf2 => {
                 (Self::LoadedFunction(lf1), false)
             }
             (Self::PartialSum(mut ps1), Self::PartialSum(ps2)) => match ps1.try_meet_mut(ps2) {
-- 
2.43.0


From 54547c6327dcd89be0c914e35821944bc9ae5eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 053/103] fix: meet of partial sums reports a change only if
 there is one

---
 hugr-passes/src/dataflow/partial_value.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hugr-passes/src/dataflow/partial_value.rs b/hugr-passes/src/dataflow/partial_value.rs
index 075eb71..fe58597 100644
--- a/hugr-passes/src/dataflow/partial_value.rs
+++ b/hugr-passes/src/dataflow/partial_value.rs
@@ -161,8 +161,7 @@ impl<V: AbstractValue, N: PartialEq + PartialOrd> PartialSum<V, N> {
             }
         }
         for k in keys_to_remove {
-            self.0.remove(&k);
-            changed = true;
+            changed |= self.0.remove(&k).is_some();
         }
         Ok(changed)
     }
-- 
2.43.0


From bd2de54f9edd621b7e0e7b7a2d4de2a3ca5095fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 054/103] fix: hash of partial sums

---
 hugr-passes/src/dataflow/partial_value.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hugr-passes/src/dataflow/partial_value.rs b/hugr-passes/src/dataflow/partial_value.rs
index fe58597..d778b78 100644
--- a/hugr-passes/src/dataflow/partial_value.rs
+++ b/hugr-passes/src/dataflow/partial_value.rs
@@ -304,7 +304,8 @@ impl<V: std::fmt::Debug, N: std::fmt::Debug> std::fmt::Debug for PartialSum<V, N
 
 impl<V: Hash, N: Hash> Hash for PartialSum<V, N> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        for (k, v) in &self.0 {
+        // Equal sums must hash the same, whatever the order of the map
+        for (k, v) in self.0.iter().sorted_by_key(|(k, _)| **k) {
             k.hash(state);
             v.hash(state);
         }
-- 
2.43.0


From 12443744b79db39049d1427710e5c9f4b89ac9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:22 +0000
Subject: [PATCH 055/103] fix: validation of containers with a single child

---
 hugr-core/src/hugr/validate.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/hugr-core/src/hugr/validate.rs b/hugr-core/src/hugr/validate.rs
index 25316db..625984d 100644
--- a/hugr-core/src/hugr/validate.rs
+++ b/hugr-core/src/hugr/validate.rs
@@ -355,6 +355,12 @@ impl<'a, H: HugrView> ValidationContext<'a, H> {
                         position: "second",
                     });
                 }
+            } else if flags.allowed_second_child != OpTag::Any {
+                return Err(ValidationError::MissingSecondChild {
+                    parent: node,
+                    parent_optype: Box::new(op_type.clone()),
+                    expected: flags.allowed_second_child,
+                });
             }
             // Additional validations running over the full list of children optypes
             let children_optypes = all_children.map(|c| (c, self.hugr.get_optype(c)));
@@ -690,6 +696,15 @@ pub enum ValidationError<N: HugrNode> {
         expected: OpTag,
         position: &'static str,
     },
+    /// The second child required by the operation is missing.
+    #[error(
+        "A {parent_optype} has only one child. Expected {expected} as second child. In parent {parent}"
+    )]
+    MissingSecondChild {
+        parent: N,
+        parent_optype: Box<OpType>,
+        expected: OpTag,
+    },
     /// The children list has invalid elements.
     #[error(
         "An operation {parent_optype} contains invalid children: {source}. In parent {parent}, child {child}",
-- 
2.43.0


From 5a9ae04b921e2703f1c58bf89f6910c564771b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:23 +0000
Subject: [PATCH 056/103] fix: static function inputs have a single source

---
 hugr-core/src/hugr/validate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-core/src/hugr/validate.rs b/hugr-core/src/hugr/validate.rs
index 625984d..f21f9fc 100644
--- a/hugr-core/src/hugr/validate.rs
+++ b/hugr-core/src/hugr/validate.rs
@@ -224,7 +224,7 @@ impl<'a, H: HugrView> ValidationContext<'a, H> {
         // Linear dataflow values must be used, and control must have somewhere to flow.
         let outgoing_is_unique = port_kind.is_linear() || port_kind == EdgeKind::ControlFlow;
         // All dataflow wires must have a unique source.
-        let incoming_is_unique = port_kind.is_value() || port_kind.is_const();
+        let incoming_is_unique = port_kind.is_value() || port_kind.is_static();
         let must_be_connected = match dir {
             // Incoming ports must be connected, except for state order ports, branch case nodes,
             // and CFG nodes.
-- 
2.43.0


From a59eaf5631059f919a0a5ce5a27722ee6daa3274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 057/103] fix: validate values inside sum constants

---
 hugr-core/src/ops/constant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-core/src/ops/constant.rs b/hugr-core/src/ops/constant.rs
index deebe54..e6ce27a 100644
--- a/hugr-core/src/ops/constant.rs
+++ b/hugr-core/src/ops/constant.rs
@@ -497,7 +497,7 @@ impl Value {
                 sum_type,
             }) => {
                 sum_type.check_type(*tag, values)?;
-                Ok(())
+                values.iter().try_for_each(Self::validate)
             }
         }
     }
-- 
2.43.0


From 1abeb613a891a7ee3662709e4dd433efd11f22da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 058/103] fix: validate the Hugr of function constants

---
 hugr-core/src/ops/constant.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hugr-core/src/ops/constant.rs b/hugr-core/src/ops/constant.rs
index e6ce27a..20b1645 100644
--- a/hugr-core/src/ops/constant.rs
+++ b/hugr-core/src/ops/constant.rs
@@ -10,8 +10,9 @@ use std::hash::{Hash, Hasher};
 use super::{NamedOp, OpName, OpTrait, StaticTag};
 use super::{OpTag, OpType};
 use crate::envelope::serde_with::AsStringEnvelope;
+use crate::hugr::ValidationError;
 use crate::types::{CustomType, EdgeKind, Signature, SumType, SumTypeError, Type, TypeRow};
-use crate::{Hugr, HugrView};
+use crate::{Hugr, HugrView, Node};
 use serialize::SerialSum;
 
 use delegate::delegate;
@@ -306,6 +307,9 @@ pub enum ConstTypeError {
         /// The root node type of the Hugr that (claims to) define the function constant.
         hugr_root_type: Box<OpType>,
     },
+    /// The Hugr defining a function constant is invalid.
+    #[error("The Hugr of a function constant is invalid: {0}")]
+    InvalidFunction(Box<ValidationError<Node>>),
     /// A mismatch between the type expected and the value.
     #[error("Value {1:?} does not match expected type {0}")]
     ConstCheckFail(Box<Type>, Value),
@@ -489,7 +493,8 @@ impl Value {
             Self::Extension { e } => Ok(e.value().validate()?),
             Self::Function { hugr } => {
                 mono_fn_type(hugr)?;
-                Ok(())
+                hugr.validate()
+                    .map_err(|err| ConstTypeError::InvalidFunction(Box::new(err)))
             }
             Self::Sum(Sum {
                 tag,
-- 
2.43.0


From 98950159e283d332a77886c79478f08acb841673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:25 +0000
Subject: [PATCH 059/103] fix: validate the signature and the type arguments of
 calls and loaded functions

---
 hugr-core/src/hugr/validate.rs |  4 ++--
 hugr-core/src/ops/dataflow.rs  | 13 +++++++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/hugr-core/src/hugr/validate.rs b/hugr-core/src/hugr/validate.rs
index f21f9fc..8cc4ce1 100644
--- a/hugr-core/src/hugr/validate.rs
+++ b/hugr-core/src/hugr/validate.rs
@@ -587,7 +587,7 @@ impl<'a, H: HugrView> ValidationContext<'a, H> {
                 ))?;
             }
             OpType::Call(c) => {
-                c.validate()
+                c.validate(var_decls)
                     .map_err(|cause| ValidationError::SignatureError {
                         node,
                         op: op_type.name(),
@@ -595,7 +595,7 @@ impl<'a, H: HugrView> ValidationContext<'a, H> {
                     })?;
             }
             OpType::LoadFunction(c) => {
-                c.validate()
+                c.validate(var_decls)
                     .map_err(|cause| ValidationError::SignatureError {
                         node,
                         op: op_type.name(),
diff --git a/hugr-core/src/ops/dataflow.rs b/hugr-core/src/ops/dataflow.rs
index 2a09fef..344ce1c 100644
--- a/hugr-core/src/ops/dataflow.rs
+++ b/hugr-core/src/ops/dataflow.rs
@@ -6,6 +6,7 @@ use super::{OpTag, OpTrait, impl_op_name};
 
 use crate::extension::SignatureError;
 use crate::ops::StaticTag;
+use crate::types::type_param::TypeParam;
 use crate::types::{EdgeKind, PolyFuncType, Signature, Substitution, Type, TypeArg, TypeRow};
 use crate::{IncomingPort, type_row};
 
@@ -279,7 +280,11 @@ impl Call {
         self.instantiation.input_count().into()
     }
 
-    pub(crate) fn validate(&self) -> Result<(), SignatureError> {
+    pub(crate) fn validate(&self, var_decls: &[TypeParam]) -> Result<(), SignatureError> {
+        self.func_sig.validate()?;
+        self.type_args
+            .iter()
+            .try_for_each(|arg| arg.validate(var_decls))?;
         let other = Self::try_new(self.func_sig.clone(), self.type_args.clone())?;
         if other.instantiation == self.instantiation {
             Ok(())
@@ -470,7 +475,11 @@ impl LoadFunction {
         0.into()
     }
 
-    pub(crate) fn validate(&self) -> Result<(), SignatureError> {
+    pub(crate) fn validate(&self, var_decls: &[TypeParam]) -> Result<(), SignatureError> {
+        self.func_sig.validate()?;
+        self.type_args
+            .iter()
+            .try_for_each(|arg| arg.validate(var_decls))?;
         let other = Self::try_new(self.func_sig.clone(), self.type_args.clone())?;
         if other.instantiation == self.instantiation {
             Ok(())
-- 
2.43.0


From d89900bec5283c40917e7cf1d1915612e1ca411a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:26 +0000
Subject: [PATCH 060/103] fix: validation of CFG edges between other children
 than blocks

---
 hugr-core/src/ops/validate.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hugr-core/src/ops/validate.rs b/hugr-core/src/ops/validate.rs
index 9bb4ebb..286b278 100644
--- a/hugr-core/src/ops/validate.rs
+++ b/hugr-core/src/ops/validate.rs
@@ -342,15 +342,15 @@ fn validate_io_nodes<'a, N: HugrNode>(
 
 /// Validate an edge between two basic blocks in a CFG sibling graph.
 fn validate_cfg_edge<N: HugrNode>(edge: ChildrenEdgeData<N>) -> Result<(), EdgeValidationError<N>> {
-    let source = &edge
-        .source_op
-        .as_dataflow_block()
-        .expect("CFG sibling graphs can only contain basic block operations.");
+    // Any other edge between children of the CFG is for the port checks to report.
+    let Some(source) = edge.source_op.as_dataflow_block() else {
+        return Ok(());
+    };
 
     let target_input = match &edge.target_op {
         OpType::DataflowBlock(dfb) => dfb.dataflow_input(),
         OpType::ExitBlock(exit) => exit.dataflow_input(),
-        _ => panic!("CFG sibling graphs can only contain basic block operations."),
+        _ => return Ok(()),
     };
 
     let source_types = source.successor_input(edge.source_port.index());
-- 
2.43.0


From fb4b1d319f6d28d2d6cecda26cd282ba3ca1fff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:48 +0000
Subject: [PATCH 061/103] fix: canonicalize_nodes moves the metadata along with
 the nodes

---
 hugr-core/src/hugr.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hugr-core/src/hugr.rs b/hugr-core/src/hugr.rs
index 48509e8..0d5cad7 100644
--- a/hugr-core/src/hugr.rs
+++ b/hugr-core/src/hugr.rs
@@ -378,6 +378,7 @@ impl Hugr {
             if pg_target != pg_source {
                 self.graph.swap_nodes(pg_target, pg_source);
                 self.op_types.swap(pg_target, pg_source);
+                self.metadata.swap(pg_target, pg_source);
                 self.hierarchy.swap_nodes(pg_target, pg_source);
                 rekey(source, pg_target.into());
             }
-- 
2.43.0


From 648697a733ee7a61990b4f6e44bd27c08bfd8e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:49 +0000
Subject: [PATCH 062/103] fix: remove_node drops the metadata of the node

---
 hugr-core/src/hugr/hugrmut.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hugr-core/src/hugr/hugrmut.rs b/hugr-core/src/hugr/hugrmut.rs
index b501b59..2893e7e 100644
--- a/hugr-core/src/hugr/hugrmut.rs
+++ b/hugr-core/src/hugr/hugrmut.rs
@@ -486,6 +486,8 @@ impl HugrMut for Hugr {
         panic_invalid_non_entrypoint(self, node);
         self.hierarchy.remove(node.into_portgraph());
         self.graph.remove_node(node.into_portgraph());
+        // The index may be reused by another node, which must not inherit the metadata.
+        self.metadata.set(node.into_portgraph(), None);
         self.op_types.take(node.into_portgraph())
     }
 
-- 
2.43.0


From b310c6931d64eba52feedb06bffc66e2912268fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:19 +0000
Subject: [PATCH 063/103] fix: the entrypoint can be moved among its siblings

---
 hugr-core/src/hugr/internal.rs | 10 +++++-----
 hugr-core/src/hugr/views.rs    |  9 +++++++++
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/hugr-core/src/hugr/internal.rs b/hugr-core/src/hugr/internal.rs
index bb1a77f..4aa3a6c 100644
--- a/hugr-core/src/hugr/internal.rs
+++ b/hugr-core/src/hugr/internal.rs
@@ -11,7 +11,7 @@ use crate::extension::ExtensionRegistry;
 use crate::{Direction, Hugr, Node};
 
 use super::HugrView;
-use super::views::{panic_invalid_node, panic_invalid_non_entrypoint};
+use super::views::{panic_invalid_node, panic_invalid_non_root};
 use super::{NodeMetadataMap, OpType};
 use crate::ops::handle::NodeHandle;
 
@@ -350,8 +350,8 @@ impl HugrMutInternals for Hugr {
     }
 
     fn move_after_sibling(&mut self, node: Node, after: Node) {
-        panic_invalid_non_entrypoint(self, node);
-        panic_invalid_non_entrypoint(self, after);
+        panic_invalid_non_root(self, node);
+        panic_invalid_non_root(self, after);
         self.hierarchy.detach(node.into_portgraph());
         self.hierarchy
             .insert_after(node.into_portgraph(), after.into_portgraph())
@@ -359,8 +359,8 @@ impl HugrMutInternals for Hugr {
     }
 
     fn move_before_sibling(&mut self, node: Node, before: Node) {
-        panic_invalid_non_entrypoint(self, node);
-        panic_invalid_non_entrypoint(self, before);
+        panic_invalid_non_root(self, node);
+        panic_invalid_non_root(self, before);
         self.hierarchy.detach(node.into_portgraph());
         self.hierarchy
             .insert_before(node.into_portgraph(), before.into_portgraph())
diff --git a/hugr-core/src/hugr/views.rs b/hugr-core/src/hugr/views.rs
index ff53ca0..5ee8664 100644
--- a/hugr-core/src/hugr/views.rs
+++ b/hugr-core/src/hugr/views.rs
@@ -840,6 +840,15 @@ pub(super) fn panic_invalid_node<H: HugrView + ?Sized>(hugr: &H, node: H::Node)
     assert!(hugr.contains_node(node), "Received an invalid node {node}.",);
 }
 
+/// Panic if [`check_valid_non_root`] fails.
+#[track_caller]
+pub(super) fn panic_invalid_non_root<H: HugrView + ?Sized>(hugr: &H, node: H::Node) {
+    assert!(
+        check_valid_non_root(hugr, node),
+        "Received an invalid non-root node {node}.",
+    );
+}
+
 /// Panic if [`check_valid_non_entrypoint`] fails.
 #[track_caller]
 pub(super) fn panic_invalid_non_entrypoint<H: HugrView + ?Sized>(hugr: &H, node: H::Node) {
-- 
2.43.0


From 62fd39db59e3806aefc625d5178d55f262499ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:20 +0000
Subject: [PATCH 064/103] fix: links of a node whose number of ports is reduced

---
 hugr-core/src/hugr/internal.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/hugr/internal.rs b/hugr-core/src/hugr/internal.rs
index 4aa3a6c..9b88cec 100644
--- a/hugr-core/src/hugr/internal.rs
+++ b/hugr-core/src/hugr/internal.rs
@@ -282,8 +282,23 @@ impl HugrMutInternals for Hugr {
     #[inline]
     fn set_num_ports(&mut self, node: Node, incoming: usize, outgoing: usize) {
         panic_invalid_node(self, node);
+        // Unlink the ports to be removed beforehand: `MultiPortGraph::set_num_ports` mixes up
+        // the ports when it both moves ports and removes some with several links.
+        let pg_node = node.into_portgraph();
+        for (direction, new_count) in [
+            (Direction::Incoming, incoming),
+            (Direction::Outgoing, outgoing),
+        ] {
+            for offset in new_count..self.graph.num_ports(pg_node, direction) {
+                let port = self
+                    .graph
+                    .port_index(pg_node, PortOffset::new(direction, offset))
+                    .expect("Port exists");
+                self.graph.unlink_port(port);
+            }
+        }
         self.graph
-            .set_num_ports(node.into_portgraph(), incoming, outgoing, |_, _| {});
+            .set_num_ports(pg_node, incoming, outgoing, |_, _| {});
     }
 
     fn add_ports(&mut self, node: Node, direction: Direction, amount: isize) -> Range<usize> {
@@ -300,8 +315,7 @@ impl HugrMutInternals for Hugr {
             Direction::Incoming => increment(&mut incoming),
             Direction::Outgoing => increment(&mut outgoing),
         };
-        self.graph
-            .set_num_ports(node.into_portgraph(), incoming, outgoing, |_, _| {});
+        self.set_num_ports(node, incoming, outgoing);
         range
     }
 
-- 
2.43.0


From db5f97b8d7d824abf3489620621b97e33a009784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:21 +0000
Subject: [PATCH 065/103] fix: insert_view_forest of nodes whose parent is not
 inserted

---
 hugr-core/src/hugr/hugrmut.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/hugr/hugrmut.rs b/hugr-core/src/hugr/hugrmut.rs
index 2893e7e..513dc02 100644
--- a/hugr-core/src/hugr/hugrmut.rs
+++ b/hugr-core/src/hugr/hugrmut.rs
@@ -732,9 +732,10 @@ fn insert_forest_internal<H: HugrView>(
     for old in other_nodes {
         let new = node_map[&old];
         if hugr.get_parent(new).is_none() {
-            let old_parent = other.get_parent(old).unwrap();
-            let new_parent = node_map[&old_parent];
-            hugr.set_parent(new, new_parent);
+            let old_parent = other.get_parent(old);
+            if let Some(new_parent) = old_parent.and_then(|p| node_map.get(&p)) {
+                hugr.set_parent(new, *new_parent);
+            }
         }
     }
     Ok(InsertedForest { node_map })
-- 
2.43.0


From 15825fef297d45dbcea529d00dd5c169e31cbadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:22 +0000
Subject: [PATCH 066/103] fix: extract_hugr of the module root sets the
 entrypoint

---
 hugr-core/src/hugr/views.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/hugr/views.rs b/hugr-core/src/hugr/views.rs
index 5ee8664..c61d12e 100644
--- a/hugr-core/src/hugr/views.rs
+++ b/hugr-core/src/hugr/views.rs
@@ -714,7 +714,9 @@ impl HugrView for Hugr {
     fn extract_hugr(&self, target: Node) -> (Hugr, impl ExtractionResult<Node> + 'static) {
         // Shortcircuit if the extracted HUGR is the same as the original
         if target == self.module_root().node() {
-            return (self.clone(), DefaultNodeMap(HashMap::new()));
+            let mut extracted = self.clone();
+            extracted.set_entrypoint(target);
+            return (extracted, DefaultNodeMap(HashMap::new()));
         }
 
         // Initialize a new HUGR with the desired entrypoint operation.
-- 
2.43.0


From c45369c55790adc5a4f46b8188f4871f5c06f079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:51 +0000
Subject: [PATCH 067/103] fix: entrypoint inputs not given values when others
 are

---
 hugr-passes/src/dataflow/datalog.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hugr-passes/src/dataflow/datalog.rs b/hugr-passes/src/dataflow/datalog.rs
index c97d406..77f3a48 100644
--- a/hugr-passes/src/dataflow/datalog.rs
+++ b/hugr-passes/src/dataflow/datalog.rs
@@ -134,6 +134,15 @@ impl<H: HugrView, V: AbstractValue> Machine<H, V> {
             // a separate store of output-wire values in self to keep prepopulate_wire working.)
             if p.peek().is_some() || !self.1.contains_key(&ep) {
                 self.prepopulate_inputs(ep, p).unwrap();
+            } else {
+                // Some inputs were given values (perhaps as wires): there is nothing to
+                // restrict the others.
+                let given = self.1.get_mut(&ep).unwrap();
+                for (ip, _) in self.0.in_value_types(ep) {
+                    if given.iter().all(|(p, _)| *p != ip) {
+                        given.push((ip, PartialValue::Top));
+                    }
+                }
             }
             // We know nothing of values reaching nodes inside the entrypoint directly from
             // outside it (they may depend on the inputs of the enclosing function), except for
-- 
2.43.0


From 8d40363c4ec3ca1d0125f64646c0df84a9d5180f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:21 +0000
Subject: [PATCH 068/103] fix: accept variables declared as a ConstType where
 that ConstType is expected

---
 hugr-core/src/types/type_param.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hugr-core/src/types/type_param.rs b/hugr-core/src/types/type_param.rs
index 016518a..d105a8c 100644
--- a/hugr-core/src/types/type_param.rs
+++ b/hugr-core/src/types/type_param.rs
@@ -200,6 +200,7 @@ impl Term {
             (Term::TupleType(es1), Term::TupleType(es2)) => es1.is_supertype(es2),
             (Term::BytesType, Term::BytesType) => true,
             (Term::FloatType, Term::FloatType) => true,
+            (Term::ConstType(t1), Term::ConstType(t2)) => t1 == t2,
             (Term::Runtime(t1), Term::Runtime(t2)) => t1 == t2,
             (Term::BoundedNat(n1), Term::BoundedNat(n2)) => n1 == n2,
             (Term::String(s1), Term::String(s2)) => s1 == s2,
-- 
2.43.0


From 8a51ba074369b41bdffb6bca1f19a1a9d3bee40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:21 +0000
Subject: [PATCH 069/103] fix: give array copy templates as many outputs as
 copies

---
 hugr-passes/src/replace_types/handlers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hugr-passes/src/replace_types/handlers.rs b/hugr-passes/src/replace_types/handlers.rs
index b11c49e..7694358 100644
--- a/hugr-passes/src/replace_types/handlers.rs
+++ b/hugr-passes/src/replace_types/handlers.rs
@@ -331,7 +331,7 @@ pub fn copy_discard_array(
             let array_ty = array_type(*n, ty.clone());
             Ok(NodeTemplate::CompoundOp(Box::new({
                 let mut dfb =
-                    DFGBuilder::new(inout_sig(array_ty.clone(), vec![array_ty; *n as usize]))
+                    DFGBuilder::new(inout_sig(array_ty.clone(), vec![array_ty; num_outports]))
                         .unwrap();
                 let [mut arr] = dfb.input_wires_arr();
                 let mut outs = vec![];
@@ -378,7 +378,7 @@ pub fn copy_discard_borrow_array(
             let array_ty = borrow_array_type(*n, ty.clone());
             Ok(NodeTemplate::CompoundOp(Box::new({
                 let mut dfb =
-                    DFGBuilder::new(inout_sig(array_ty.clone(), vec![array_ty; *n as usize]))
+                    DFGBuilder::new(inout_sig(array_ty.clone(), vec![array_ty; num_outports]))
                         .unwrap();
                 let [mut arr] = dfb.input_wires_arr();
                 let mut outs = vec![];
-- 
2.43.0


From 002214161fbfba1d40179024ba1b0ccb34d65d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:22 +0000
Subject: [PATCH 070/103] fix: replace inside collection constants whose
 element type is unchanged

---
 hugr-passes/src/replace_types/handlers.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/hugr-passes/src/replace_types/handlers.rs b/hugr-passes/src/replace_types/handlers.rs
index 7694358..4e745fa 100644
--- a/hugr-passes/src/replace_types/handlers.rs
+++ b/hugr-passes/src/replace_types/handlers.rs
@@ -39,16 +39,14 @@ pub fn list_const(
         return Ok(None);
     };
     let mut elem_t = lv.get_element_type().clone();
-    if !elem_t.transform(repl)? {
-        // No change to type, so values should not change either
-        return Ok(None);
-    }
+    let mut changed = elem_t.transform(repl)?;
 
+    // Even if the type does not change, the values may (e.g. ops inside function values)
     let mut vals: Vec<Value> = lv.get_contents().to_vec();
     for v in &mut vals {
-        repl.change_value(v)?;
+        changed |= repl.change_value(v)?;
     }
-    Ok(Some(ListValue::new(elem_t, vals).into()))
+    Ok(changed.then(|| ListValue::new(elem_t, vals).into()))
 }
 
 /// Handler for [`GenericArrayValue`] constants that recursively
@@ -65,16 +63,14 @@ where
         return Ok(None);
     };
     let mut elem_t = av.get_element_type().clone();
-    if !elem_t.transform(repl)? {
-        // No change to type, so values should not change either
-        return Ok(None);
-    }
+    let mut changed = elem_t.transform(repl)?;
 
+    // Even if the type does not change, the values may (e.g. ops inside function values)
     let mut vals: Vec<Value> = av.get_contents().to_vec();
     for v in &mut vals {
-        repl.change_value(v)?;
+        changed |= repl.change_value(v)?;
     }
-    Ok(Some(GenericArrayValue::<AK>::new(elem_t, vals).into()))
+    Ok(changed.then(|| GenericArrayValue::<AK>::new(elem_t, vals).into()))
 }
 
 /// Handler for [`ArrayValue`] constants that recursively
-- 
2.43.0


From dabdfcdc83fe4f77b61bbd6bc5754bb3a34f80ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:22 +0000
Subject: [PATCH 071/103] fix: report nonlocal single uses of values that
 became linear

---
 hugr-passes/src/replace_types.rs           |  7 ++++-
 hugr-passes/src/replace_types/linearize.rs | 34 +++++++++++-----------
 2 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/hugr-passes/src/replace_types.rs b/hugr-passes/src/replace_types.rs
index a6167a5..03edeb6 100644
--- a/hugr-passes/src/replace_types.rs
+++ b/hugr-passes/src/replace_types.rs
@@ -750,7 +750,12 @@ impl ReplaceTypes {
             for outp in new_sig.output_ports() {
                 if !new_sig.out_port_type(outp).unwrap().copyable() {
                     let targets = hugr.linked_inputs(n, outp).collect::<Vec<_>>();
-                    if targets.len() != 1 {
+                    // A single use needs no copy/discard, but must be local
+                    let single_local = match targets.as_slice() {
+                        [(tgt, _)] => hugr.get_parent(*tgt) == hugr.get_parent(n),
+                        _ => false,
+                    };
+                    if !single_local {
                         hugr.disconnect(n, outp);
                         let src = Wire::new(n, outp);
                         self.linearize.insert_copy_discard(hugr, src, &targets)?;
diff --git a/hugr-passes/src/replace_types/linearize.rs b/hugr-passes/src/replace_types/linearize.rs
index 47e3a1f..52150d8 100644
--- a/hugr-passes/src/replace_types/linearize.rs
+++ b/hugr-passes/src/replace_types/linearize.rs
@@ -57,26 +57,26 @@ pub trait Linearizer {
         src: Wire,
         targets: &[(Node, IncomingPort)],
     ) -> Result<(), LinearizeError> {
+        // Fail fast if the edges are nonlocal.
+        let src_parent = hugr
+            .get_parent(src.node())
+            .expect("Root node cannot have out edges");
+        if let Some((tgt, tgt_parent)) = targets.iter().find_map(|(tgt, _)| {
+            let tgt_parent = hugr
+                .get_parent(*tgt)
+                .expect("Root node cannot have incoming edges");
+            (tgt_parent != src_parent).then_some((*tgt, tgt_parent))
+        }) {
+            return Err(LinearizeError::NoLinearNonLocalEdges {
+                src: src.node(),
+                src_parent,
+                tgt,
+                tgt_parent,
+            });
+        }
         let (tgt_node, tgt_inport) = if targets.len() == 1 {
             *targets.first().unwrap()
         } else {
-            // Fail fast if the edges are nonlocal.
-            let src_parent = hugr
-                .get_parent(src.node())
-                .expect("Root node cannot have out edges");
-            if let Some((tgt, tgt_parent)) = targets.iter().find_map(|(tgt, _)| {
-                let tgt_parent = hugr
-                    .get_parent(*tgt)
-                    .expect("Root node cannot have incoming edges");
-                (tgt_parent != src_parent).then_some((*tgt, tgt_parent))
-            }) {
-                return Err(LinearizeError::NoLinearNonLocalEdges {
-                    src: src.node(),
-                    src_parent,
-                    tgt,
-                    tgt_parent,
-                });
-            }
             let sig = hugr.signature(src.node()).unwrap();
             let typ = sig.port_type(src.source()).unwrap().clone();
             let copy_discard_op = self
-- 
2.43.0


From a78b398a5a7275c8c90fb036193ed650d561640f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:23 +0000
Subject: [PATCH 072/103] fix: do not look up regions of the outer Hugr in
 function constants

---
 hugr-passes/src/replace_types.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hugr-passes/src/replace_types.rs b/hugr-passes/src/replace_types.rs
index 03edeb6..c0ca4c5 100644
--- a/hugr-passes/src/replace_types.rs
+++ b/hugr-passes/src/replace_types.rs
@@ -736,7 +736,11 @@ impl ReplaceTypes {
                     false
                 }
             }),
-            Value::Function { hugr } => self.run(&mut **hugr),
+            // (`self.regions` are nodes of the outer Hugr)
+            Value::Function { hugr } => {
+                let root = hugr.module_root();
+                self.change_subtree(&mut **hugr, root, false)
+            }
         }
     }
 
-- 
2.43.0


From d290863bbcc2f32889a52e10937c1f191ff62639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:23 +0000
Subject: [PATCH 073/103] fix: report copy templates that cannot be nested
 instead of panicking

---
 hugr-passes/src/replace_types/handlers.rs  | 6 +++++-
 hugr-passes/src/replace_types/linearize.rs | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/hugr-passes/src/replace_types/handlers.rs b/hugr-passes/src/replace_types/handlers.rs
index 4e745fa..1da3e16 100644
--- a/hugr-passes/src/replace_types/handlers.rs
+++ b/hugr-passes/src/replace_types/handlers.rs
@@ -458,7 +458,11 @@ pub fn copy_discard_borrow_array(
                 let (arr, elem) = not_borrowed_case
                     .add_borrow_array_borrow(ty.clone(), *n, arr, idx_u)
                     .unwrap();
-                elem_discard.add(&mut not_borrowed_case, [elem]).unwrap();
+                elem_discard
+                    .add(&mut not_borrowed_case, [elem])
+                    .map_err(|e| {
+                        LinearizeError::NestedTemplateError(Box::new(ty.clone()), Box::new(e))
+                    })?;
                 not_borrowed_case.finish_with_outputs([arr]).unwrap();
             }
             let [arr_out] = cond2.finish_sub_container().unwrap().outputs_arr();
diff --git a/hugr-passes/src/replace_types/linearize.rs b/hugr-passes/src/replace_types/linearize.rs
index 52150d8..39d1b3d 100644
--- a/hugr-passes/src/replace_types/linearize.rs
+++ b/hugr-passes/src/replace_types/linearize.rs
@@ -292,7 +292,12 @@ impl Linearizer for DelegatingLinearizer {
                         } else {
                             self.copy_discard_op(ty, num_outports)?
                                 .add(&mut case_b, [inp])
-                                .unwrap()
+                                .map_err(|e| {
+                                    LinearizeError::NestedTemplateError(
+                                        Box::new(ty.clone()),
+                                        Box::new(e),
+                                    )
+                                })?
                                 .outputs()
                                 .collect()
                         };
-- 
2.43.0


From 0e1f533f5f9aa63b88ebc3e47d6b8886ba9a1039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:24 +0000
Subject: [PATCH 074/103] fix: link by value when the entrypoint is the module
 root or discarded

---
 hugr-core/src/hugr/linking.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/hugr/linking.rs b/hugr-core/src/hugr/linking.rs
index f20c006..b69fc6f 100644
--- a/hugr-core/src/hugr/linking.rs
+++ b/hugr-core/src/hugr/linking.rs
@@ -87,8 +87,13 @@ pub trait HugrLinking: HugrMut {
         let mut roots = HashMap::new();
         if let Some(parent) = parent {
             roots.insert(other.entrypoint(), parent);
-            other.set_parent(other.entrypoint(), other.module_root());
+            let root = other.module_root();
+            if other.entrypoint() != root {
+                other.set_parent(other.entrypoint(), root);
+            }
         };
+        // Nodes to discard below may include the entrypoint (if it is not itself inserted)
+        other.set_entrypoint(other.module_root());
         for (ch, dirv) in children.iter() {
             roots.insert(*ch, self.module_root());
             if matches!(dirv, NodeLinkingDirective::UseExisting(_)) {
-- 
2.43.0


From ac036d16ef17e0e7a019d296ae0b93e9e6e76551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 075/103] fix: replace types inside borrow array constants by
 default

---
 hugr-passes/src/replace_types.rs          |  2 ++
 hugr-passes/src/replace_types/handlers.rs | 12 ++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/hugr-passes/src/replace_types.rs b/hugr-passes/src/replace_types.rs
index c0ca4c5..cb4a321 100644
--- a/hugr-passes/src/replace_types.rs
+++ b/hugr-passes/src/replace_types.rs
@@ -7,6 +7,7 @@ use std::sync::Arc;
 
 use handlers::list_const;
 use hugr_core::std_extensions::collections::array::array_type_def;
+use hugr_core::std_extensions::collections::borrow_array::borrow_array_type_def;
 use hugr_core::std_extensions::collections::list::list_type_def;
 use hugr_core::std_extensions::collections::value_array::value_array_type_def;
 use thiserror::Error;
@@ -262,6 +263,7 @@ impl Default for ReplaceTypes {
         res.linearize = DelegatingLinearizer::default();
         res.replace_consts_parametrized(array_type_def(), handlers::array_const);
         res.replace_consts_parametrized(value_array_type_def(), handlers::value_array_const);
+        res.replace_consts_parametrized(borrow_array_type_def(), handlers::borrow_array_const);
         res.replace_consts_parametrized(list_type_def(), list_const);
         res
     }
diff --git a/hugr-passes/src/replace_types/handlers.rs b/hugr-passes/src/replace_types/handlers.rs
index 1da3e16..b4f0b16 100644
--- a/hugr-passes/src/replace_types/handlers.rs
+++ b/hugr-passes/src/replace_types/handlers.rs
@@ -97,6 +97,18 @@ pub fn value_array_const(
     generic_array_const::<ValueArray>(val, repl)
 }
 
+/// Handler for [`BArrayValue`] constants that recursively
+/// [`ReplaceTypes::change_value`]s the elements of the list.
+/// Included in [`ReplaceTypes::default`].
+///
+/// [`BArrayValue`]: hugr_core::std_extensions::collections::borrow_array::BArrayValue
+pub fn borrow_array_const(
+    val: &OpaqueValue,
+    repl: &ReplaceTypes,
+) -> Result<Option<Value>, ReplaceTypesError> {
+    generic_array_const::<BorrowArray>(val, repl)
+}
+
 /// Handler for copying/discarding arrays if their elements have become linear.
 ///
 /// Generic over the concrete array implementation.
-- 
2.43.0


From cb5dc71aac60715998b17bc55da89795f3a6bf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:03 +0000
Subject: [PATCH 076/103] fix: a wire that branches inside and outside a
 replaced subgraph made PersistentHugr panic

---
 hugr-persistent/src/wire.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hugr-persistent/src/wire.rs b/hugr-persistent/src/wire.rs
index e1b38eb..da98707 100644
--- a/hugr-persistent/src/wire.rs
+++ b/hugr-persistent/src/wire.rs
@@ -121,6 +121,13 @@ impl PersistentWire {
                         // ports on the opposite end of the wire and boundary
                         // ports in the child commit that deleted the node.
                         for (opp_node, opp_port) in commit_hugr.linked_ports(node, port) {
+                            if per_hugr.find_deleting_commit(commit.to_patch_node(opp_node))
+                                == Some(deleted_by)
+                            {
+                                // Both ends are deleted, the wire does not cross
+                                // the boundary of the child commit.
+                                continue;
+                            }
                             for (child_node, child_port) in commit.linked_child_ports(
                                 opp_node,
                                 opp_port,
-- 
2.43.0


From f0db6e704c1763e923cdd5f4d107d00d1d3c6a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:03 +0000
Subject: [PATCH 077/103] fix: commits whose parents share an ancestor were
 refused for lack of a base

---
 hugr-persistent/src/commit.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/hugr-persistent/src/commit.rs b/hugr-persistent/src/commit.rs
index ae6db1c..5e6922d 100644
--- a/hugr-persistent/src/commit.rs
+++ b/hugr-persistent/src/commit.rs
@@ -1,6 +1,11 @@
 //! [`Commit`] type and data associated with it.
 
-use std::{marker::PhantomData, mem};
+use std::{
+    collections::{BTreeSet, VecDeque},
+    iter,
+    marker::PhantomData,
+    mem,
+};
 
 use delegate::delegate;
 use hugr_core::{
@@ -362,8 +367,20 @@ impl Commit<'_> {
 }
 
 fn get_base_ancestors(arg: &RelRc<CommitData, ()>) -> impl Iterator<Item = &RelRc<CommitData, ()>> {
-    arg.all_ancestors()
-        .filter(|c| matches!(c.value(), CommitData::Base(_)))
+    // Do not use `RelRc::all_ancestors` here: it stops at the first ancestor that
+    // it reaches a second time.
+    let mut seen = BTreeSet::new();
+    let mut queue = VecDeque::from([arg]);
+    let all_ancestors = iter::from_fn(move || {
+        loop {
+            let commit = queue.pop_front()?;
+            if seen.insert(commit.as_ptr()) {
+                queue.extend(commit.all_parents());
+                return Some(commit);
+            }
+        }
+    });
+    all_ancestors.filter(|c| matches!(c.value(), CommitData::Base(_)))
 }
 
 impl From<Commit<'_>> for RelRc<CommitData, ()> {
-- 
2.43.0


From a8f3afadfd009a9f307f55544d563c504cd0cb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:03 +0000
Subject: [PATCH 078/103] fix: ancestors of commits were not in topological
 order, so conflicting commits could be added

---
 hugr-persistent/src/persistent_hugr.rs | 41 ++++++++++----------------
 1 file changed, 16 insertions(+), 25 deletions(-)

diff --git a/hugr-persistent/src/persistent_hugr.rs b/hugr-persistent/src/persistent_hugr.rs
index 01bbfd6..9af0668 100644
--- a/hugr-persistent/src/persistent_hugr.rs
+++ b/hugr-persistent/src/persistent_hugr.rs
@@ -449,32 +449,23 @@ fn get_ancestors_while<'a>(
     continue_fn: impl Fn(&Commit) -> bool,
 ) -> VecDeque<Commit<'a>> {
     let mut seen_ids = BTreeSet::new();
-    let commits = commits.into_iter();
-    let mut all_commits = VecDeque::with_capacity(commits.size_hint().0);
-
-    for commit in commits {
-        if !seen_ids.insert(commit.as_ptr()) {
-            continue;
-        }
-        let start = all_commits.len();
-        let mut ind = start;
-        all_commits.push_back(commit);
-
-        while ind < all_commits.len() {
-            let commit = all_commits[ind].clone();
-            ind += 1;
-
-            if !continue_fn(&commit) {
-                continue;
-            }
-
-            for commit in commit.parents() {
-                if seen_ids.insert(commit.as_ptr()) {
-                    all_commits.push_back(commit.clone());
-                }
-            }
+    let mut all_commits = VecDeque::new();
+    // A stack for a depth-first traversal. The flag is set once the parents of
+    // the commit have been visited.
+    let mut stack = commits.into_iter().map(|c| (c, false)).collect_vec();
+
+    while let Some((commit, visited_parents)) = stack.pop() {
+        if visited_parents {
+            all_commits.push_front(commit);
+        } else if seen_ids.insert(commit.as_ptr()) {
+            let parents = if continue_fn(&commit) {
+                commit.parents().cloned().collect_vec()
+            } else {
+                Vec::new()
+            };
+            stack.push((commit, true));
+            stack.extend(parents.into_iter().map(|c| (c, false)));
         }
-        all_commits.rotate_right(all_commits.len() - start);
     }
 
     all_commits
-- 
2.43.0


From ee13d6e8c6d3b0a5ed70225aeecfa7c6d7b833eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:03 +0000
Subject: [PATCH 079/103] fix: walker missed replacements passing a wire
 through to the boundary of a parent commit

---
 hugr-persistent/src/walker.rs | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/hugr-persistent/src/walker.rs b/hugr-persistent/src/walker.rs
index eac2f05..a8425d9 100644
--- a/hugr-persistent/src/walker.rs
+++ b/hugr-persistent/src/walker.rs
@@ -400,9 +400,10 @@ impl<'a> Walker<'a> {
             for (child, (opp_node, opp_port)) in
                 commit.children_at_boundary_port(node.1, port, self.state_space)
             {
-                for (node, port) in
-                    commit.linked_child_ports(opp_node, opp_port, &child, BoundaryMode::SnapToHost)
-                {
+                let child_ports = commit
+                    .linked_child_ports(opp_node, opp_port, &child, BoundaryMode::SnapToHost)
+                    .flat_map(|(node, port)| self.resolve_replacement_io(node, port));
+                for (node, port) in child_ports {
                     let mut empty_commits = empty_commits.clone();
                     if node.owner() != child.id() {
                         empty_commits.insert(child.id());
@@ -413,6 +414,30 @@ impl<'a> Walker<'a> {
         }
         all_ports
     }
+
+    /// If `node` is an input or output node in the replacement of its commit,
+    /// get the equivalent ports in the ancestors of the commit. Otherwise,
+    /// return the port itself.
+    fn resolve_replacement_io(&self, node: PatchNode, port: Port) -> BTreeSet<(PatchNode, Port)> {
+        let mut resolved = BTreeSet::new();
+        let mut queue = vec![(node, port)];
+        while let Some((node, port)) = queue.pop() {
+            let Some(commit) = self.state_space.try_upgrade(node.owner()) else {
+                continue;
+            };
+            let is_replacement_io = commit
+                .replacement()
+                .is_some_and(|repl| repl.get_replacement_io().contains(&node.1));
+            if is_replacement_io {
+                for (opp_node, opp_port) in commit.commit_hugr().linked_ports(node.1, port) {
+                    queue.extend(commit.linked_parent_ports(opp_node, opp_port));
+                }
+            } else {
+                resolved.insert((node, port));
+            }
+        }
+        resolved
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 0eb71fe0b0f125ef8a0ffbddcd925b8b21d91420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:01 +0000
Subject: [PATCH 080/103] fix: report surplus wires and wires between unrelated
 cases instead of panicking

---
 hugr-core/src/builder.rs              |  4 ++++
 hugr-core/src/builder/build_traits.rs | 11 ++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/builder.rs b/hugr-core/src/builder.rs
index 3d5a251..d698a62 100644
--- a/hugr-core/src/builder.rs
+++ b/hugr-core/src/builder.rs
@@ -245,6 +245,10 @@ pub enum BuilderWiringError {
         dst: Node,
         dst_offset: Port,
     },
+    /// There are more wires than the operation has inputs.
+    #[error("Node {dst} has no input port {dst_offset}")]
+    #[allow(missing_docs)]
+    NoInputPort { dst: Node, dst_offset: Port },
     /// Inter-Graph edges can only carry copyable data.
     #[error(
         "Inter-graph edges cannot carry non-copyable data {typ}. Tried connecting {src} ({src_offset}) with {dst} ({dst_offset})."
diff --git a/hugr-core/src/builder/build_traits.rs b/hugr-core/src/builder/build_traits.rs
index 1936c54..60ea85f 100644
--- a/hugr-core/src/builder/build_traits.rs
+++ b/hugr-core/src/builder/build_traits.rs
@@ -5,7 +5,7 @@ use crate::hugr::views::HugrView;
 use crate::hugr::{NodeMetadata, ValidationError};
 use crate::ops::{self, OpTag, OpTrait, OpType, Tag, TailLoop};
 use crate::utils::collect_array;
-use crate::{Extension, IncomingPort, Node, OutgoingPort};
+use crate::{Extension, IncomingPort, Node, OutgoingPort, PortIndex};
 
 use std::collections::HashMap;
 use std::iter;
@@ -788,6 +788,13 @@ fn wire_up<T: Dataflow + ?Sized>(
     let src_parent_parent = src_parent.and_then(|src| base.get_parent(src));
     let dst_parent = base.get_parent(dst);
     let local_source = src_parent == dst_parent;
+
+    if dst_port.index() >= base.num_inputs(dst) {
+        return Err(BuilderWiringError::NoInputPort {
+            dst,
+            dst_offset: dst_port.into(),
+        });
+    }
     if let EdgeKind::Value(typ) = base.get_optype(src).port_kind(src_port).unwrap() {
         if !local_source {
             // Non-local value sources require a state edge to an ancestor of dst
@@ -821,8 +828,10 @@ fn wire_up<T: Dataflow + ?Sized>(
 
             if !OpTag::ControlFlowChild.is_superset(base.get_optype(src).tag())
                 && !OpTag::ControlFlowChild.is_superset(base.get_optype(src_sibling).tag())
+                && base.get_optype(src_sibling).other_input_port().is_some()
             {
                 // Add a state order constraint unless one of the nodes is a CFG BasicBlock
+                // (or cannot have one, in which case the wire is invalid).
                 base.add_other_edge(src, src_sibling);
             }
         } else if !typ.copyable() & base.linked_ports(src, src_port).next().is_some() {
-- 
2.43.0


From 4475410cab93194982c7193434fee97d8ddaf644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:05 +0000
Subject: [PATCH 081/103] fix: give nested DFG nodes a port for each input or
 output added while building

---
 hugr-core/src/builder/dataflow.rs | 65 ++++++++++++++++---------------
 1 file changed, 33 insertions(+), 32 deletions(-)

diff --git a/hugr-core/src/builder/dataflow.rs b/hugr-core/src/builder/dataflow.rs
index 83f7249..c2e78e3 100644
--- a/hugr-core/src/builder/dataflow.rs
+++ b/hugr-core/src/builder/dataflow.rs
@@ -1,6 +1,6 @@
 //! Builders for dataflow regions.
 
-use itertools::Itertools;
+use itertools::{Either, Itertools};
 
 use super::build_traits::{HugrBuilder, SubContainer};
 use super::handle::BuildHandle;
@@ -13,7 +13,7 @@ use crate::hugr::{HugrView, ValidationError};
 use crate::ops::handle::NodeHandle;
 use crate::ops::{self, DFG, FuncDefn, NamedOp, OpParent, OpType};
 use crate::types::{PolyFuncType, Signature, Type};
-use crate::{Direction, Hugr, IncomingPort, Node, OutgoingPort, Visibility, Wire, hugr::HugrMut};
+use crate::{Direction, Hugr, Node, Port, Visibility, Wire, hugr::HugrMut};
 
 /// Builder for a [`ops::DFG`] node.
 #[derive(Debug, Clone, PartialEq)]
@@ -125,23 +125,12 @@ impl<T: AsMut<Hugr> + AsRef<Hugr>> DFGBuilder<T> {
         };
         inp.types.to_mut().push(input_type);
 
-        let mut new_port = self.hugr_mut().add_ports(inp_node, Direction::Outgoing, 1);
-        let new_port = new_port.next().unwrap();
-
-        // The last port in an input/output node is an order edge port, so we must shift any connections to it.
-        let new_value_port: OutgoingPort = (new_port - 1).into();
-        let new_order_port: OutgoingPort = new_port.into();
-        let order_edge_targets = self
-            .hugr()
-            .linked_inputs(inp_node, new_value_port)
-            .collect_vec();
-        self.hugr_mut().disconnect(inp_node, new_value_port);
-        for (tgt_node, tgt_port) in order_edge_targets {
-            self.hugr_mut()
-                .connect(inp_node, new_order_port, tgt_node, tgt_port);
+        let dfg_node = self.container_node();
+        self.add_value_port(inp_node, Direction::Outgoing);
+        if self.hugr().get_optype(dfg_node).is_dfg() {
+            self.add_value_port(dfg_node, Direction::Incoming);
         }
 
-        // Update the builder metadata
         self.num_in_wires += 1;
 
         Ok(self.input_wires().next_back().unwrap())
@@ -180,28 +169,40 @@ impl<T: AsMut<Hugr> + AsRef<Hugr>> DFGBuilder<T> {
         };
         out.types.to_mut().push(output_type);
 
-        let mut new_port = self.hugr_mut().add_ports(out_node, Direction::Incoming, 1);
-        let new_port = new_port.next().unwrap();
-
-        // The last port in an input/output node is an order edge port, so we must shift any connections to it.
-        let new_value_port: IncomingPort = (new_port - 1).into();
-        let new_order_port: IncomingPort = new_port.into();
-        let order_edge_sources = self
-            .hugr()
-            .linked_outputs(out_node, new_value_port)
-            .collect_vec();
-        self.hugr_mut().disconnect(out_node, new_value_port);
-        for (src_node, src_port) in order_edge_sources {
-            self.hugr_mut()
-                .connect(src_node, src_port, out_node, new_order_port);
+        let dfg_node = self.container_node();
+        self.add_value_port(out_node, Direction::Incoming);
+        if self.hugr().get_optype(dfg_node).is_dfg() {
+            self.add_value_port(dfg_node, Direction::Outgoing);
         }
 
-        // Update the builder metadata
         self.num_out_wires += 1;
 
         Ok(())
     }
 
+    /// Add a port to a node whose optype got a new value port as its last one.
+    ///
+    /// The order port is moved behind it, with its edges.
+    fn add_value_port(&mut self, node: Node, dir: Direction) {
+        let new_order_port = self.hugr_mut().add_ports(node, dir, 1).start;
+        let new_value_port = Port::new(dir, new_order_port - 1);
+        let new_order_port = Port::new(dir, new_order_port);
+
+        let order_edges = self.hugr().linked_ports(node, new_value_port).collect_vec();
+        self.hugr_mut().disconnect(node, new_value_port);
+        for (other_node, other_port) in order_edges {
+            match (new_order_port.as_directed(), other_port.as_directed()) {
+                (Either::Left(inp), Either::Right(out)) => {
+                    self.hugr_mut().connect(other_node, out, node, inp);
+                }
+                (Either::Right(out), Either::Left(inp)) => {
+                    self.hugr_mut().connect(node, out, other_node, inp);
+                }
+                _ => unreachable!("ports are linked to ports of the other direction"),
+            }
+        }
+    }
+
     /// Update the container's parent signature, if it is a function definition, DFG region, or dataflow block.
     ///
     /// Internal function used in [`add_input`] and [`add_output`].
-- 
2.43.0


From a79b688a8eeee44e602ccfbdd44bb29773a3c0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:41 +0000
Subject: [PATCH 082/103] fix: node_bound of the petgraph wrapper covers graphs
 with gaps in their node indices

---
 hugr-core/src/hugr/views/petgraph.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/hugr/views/petgraph.rs b/hugr-core/src/hugr/views/petgraph.rs
index bff727b..f6441db 100644
--- a/hugr-core/src/hugr/views/petgraph.rs
+++ b/hugr-core/src/hugr/views/petgraph.rs
@@ -66,7 +66,12 @@ where
     T::Node: NodeIndex + From<portgraph::NodeIndex>,
 {
     fn node_bound(&self) -> usize {
-        HugrView::num_nodes(self.hugr)
+        // Node indices may have gaps, so this can be larger than the node count.
+        self.hugr
+            .nodes()
+            .map(|n| n.index() + 1)
+            .max()
+            .unwrap_or_default()
     }
 
     fn to_index(&self, ix: Self::NodeId) -> usize {
-- 
2.43.0


From 4c6cd96bce7edf86047f852beb43fd88dbb39c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:41 +0000
Subject: [PATCH 083/103] fix: changing the inputs or outputs of a DFG keeps
 order edges and type parameters

---
 hugr-core/src/hugr/views/root_checked/dfg.rs | 87 +++++++++++++++++---
 1 file changed, 74 insertions(+), 13 deletions(-)

diff --git a/hugr-core/src/hugr/views/root_checked/dfg.rs b/hugr-core/src/hugr/views/root_checked/dfg.rs
index c27b996..8a10f95 100644
--- a/hugr-core/src/hugr/views/root_checked/dfg.rs
+++ b/hugr-core/src/hugr/views/root_checked/dfg.rs
@@ -6,13 +6,13 @@ use itertools::Itertools;
 use thiserror::Error;
 
 use crate::{
-    IncomingPort, OutgoingPort, Port, PortIndex,
+    Direction, IncomingPort, OutgoingPort, Port, PortIndex,
     hugr::HugrMut,
     ops::{
         OpParent, OpTrait, OpType,
         handle::{DataflowParentID, DfgID},
     },
-    types::{NoRV, Signature, Type, TypeBase},
+    types::{NoRV, PolyFuncType, Signature, Type, TypeBase},
 };
 
 use super::RootChecked;
@@ -59,12 +59,12 @@ macro_rules! impl_dataflow_parent_methods {
 
                 // Record the old connections from and to the input and output nodes
                 let old_inputs_incoming = hugr
-                    .node_outputs(inp)
-                    .map(|p| hugr.linked_inputs(inp, p).collect_vec())
+                    .out_value_types(inp)
+                    .map(|(p, _)| hugr.linked_inputs(inp, p).collect_vec())
                     .collect_vec();
                 let old_outputs_outgoing = hugr
-                    .node_inputs(out)
-                    .map(|p| hugr.linked_outputs(out, p).collect_vec())
+                    .in_value_types(out)
+                    .map(|(p, _)| hugr.linked_outputs(out, p).collect_vec())
                     .collect_vec();
 
                 // The old signature types
@@ -95,14 +95,15 @@ macro_rules! impl_dataflow_parent_methods {
                 let new_sig = Signature::new(new_inp_sig, new_out_sig);
 
                 // Remove all edges of the input and output nodes
-                disconnect_all(hugr, inp);
-                disconnect_all(hugr, out);
+                disconnect_values(hugr, inp);
+                disconnect_values(hugr, out);
 
                 // Update the signatures of the IO and their ancestors
                 let mut is_ancestor = false;
                 let mut node = hugr.entrypoint();
                 while matches!(hugr.get_optype(node), OpType::FuncDefn(_) | OpType::DFG(_)) {
                     let [inner_inp, inner_out] = hugr.get_io(node).expect("valid DFG graph");
+                    disconnect_inner_dfg(hugr, node);
                     for node in [node, inner_inp, inner_out] {
                         update_signature(hugr, node, &new_sig);
                     }
@@ -194,6 +195,7 @@ macro_rules! impl_dataflow_parent_methods {
                 let mut is_ancestor = false;
                 while matches!(hugr.get_optype(node), OpType::FuncDefn(_) | OpType::DFG(_)) {
                     let [inner_inp, inner_out] = hugr.get_io(node).expect("valid DFG graph");
+                    disconnect_inner_dfg(hugr, node);
                     for node in [node, inner_inp, inner_out] {
                         update_signature(hugr, node, &new_sig);
                     }
@@ -228,7 +230,6 @@ fn update_inner_dfg_links<H: HugrMut>(hugr: &mut H, node: H::Node) {
         .expect("no non-trivial inner DFG");
 
     let [inp, out] = hugr.get_io(node).expect("valid DFG graph");
-    disconnect_all(hugr, inner_dfg);
     for (out_port, _) in hugr.out_value_types(inp).collect_vec() {
         hugr.connect(inp, out_port, inner_dfg, out_port.index());
     }
@@ -237,19 +238,54 @@ fn update_inner_dfg_links<H: HugrMut>(hugr: &mut H, node: H::Node) {
     }
 }
 
-fn disconnect_all<H: HugrMut>(hugr: &mut H, node: H::Node) {
-    let all_ports = hugr.all_node_ports(node).collect_vec();
-    for port in all_ports {
+/// Disconnect the values of a DFG that will be reconnected by
+/// [`update_inner_dfg_links`] on its parent.
+fn disconnect_inner_dfg<H: HugrMut>(hugr: &mut H, node: H::Node) {
+    let parent_op = hugr.get_parent(node).map(|p| hugr.get_optype(p));
+    if matches!(parent_op, Some(OpType::FuncDefn(_) | OpType::DFG(_))) {
+        disconnect_values(hugr, node);
+    }
+}
+
+/// Disconnect all value ports of a node, keeping its order edges.
+fn disconnect_values<H: HugrMut>(hugr: &mut H, node: H::Node) {
+    let value_ports = [Direction::Incoming, Direction::Outgoing]
+        .into_iter()
+        .flat_map(|dir| {
+            hugr.value_types(node, dir)
+                .map(|(port, _)| port)
+                .collect_vec()
+        })
+        .collect_vec();
+    for port in value_ports {
         hugr.disconnect(node, port);
     }
 }
 
 fn update_signature<H: HugrMut>(hugr: &mut H, node: H::Node, new_sig: &Signature) {
+    // The position of the order ports depends on the number of values, so the
+    // order edges have to be moved.
+    let old_op = hugr.get_optype(node);
+    let order_in = old_op.other_input_port();
+    let order_out = old_op.other_output_port();
+    let order_sources = order_in
+        .map(|port| hugr.linked_outputs(node, port).collect_vec())
+        .unwrap_or_default();
+    let order_targets = order_out
+        .map(|port| hugr.linked_inputs(node, port).collect_vec())
+        .unwrap_or_default();
+    for port in (order_in.map(Port::from).into_iter()).chain(order_out.map(Port::from)) {
+        hugr.disconnect(node, port);
+    }
+
     match hugr.optype_mut(node) {
         OpType::DFG(dfg) => {
             dfg.signature = new_sig.clone();
         }
-        OpType::FuncDefn(fn_def_op) => *fn_def_op.signature_mut() = new_sig.clone().into(),
+        OpType::FuncDefn(fn_def_op) => {
+            let signature = fn_def_op.signature_mut();
+            *signature = PolyFuncType::new(signature.params().to_vec(), new_sig.clone());
+        }
         OpType::Input(inp) => {
             inp.types = new_sig.input().clone();
         }
@@ -257,7 +293,32 @@ fn update_signature<H: HugrMut>(hugr: &mut H, node: H::Node, new_sig: &Signature
         _ => panic!("only update signature of DFG, FuncDefn, Input, or Output"),
     };
     let new_op = hugr.get_optype(node);
+    let [new_order_in, new_order_out] = [
+        new_op.other_port(Direction::Incoming),
+        new_op.other_port(Direction::Outgoing),
+    ];
     hugr.set_num_ports(node, new_op.input_count(), new_op.output_count());
+
+    if let Some(port) = new_order_in {
+        for (src, src_port) in order_sources {
+            hugr.connect(
+                src,
+                src_port,
+                node,
+                port.as_incoming().expect("incoming port"),
+            );
+        }
+    }
+    if let Some(port) = new_order_out {
+        for (dst, dst_port) in order_targets {
+            hugr.connect(
+                node,
+                port.as_outgoing().expect("outgoing port"),
+                dst,
+                dst_port,
+            );
+        }
+    }
 }
 
 fn check_valid_inputs<V>(
-- 
2.43.0


From b7bff0373108cd4e70b27b4c4e8a5b55aac603ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:14 +0000
Subject: [PATCH 084/103] fix: validate plain type schemes of op definitions in
 registries

---
 hugr-core/src/extension/op_def.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/hugr-core/src/extension/op_def.rs b/hugr-core/src/extension/op_def.rs
index aeed9fe..aa58a12 100644
--- a/hugr-core/src/extension/op_def.rs
+++ b/hugr-core/src/extension/op_def.rs
@@ -463,13 +463,17 @@ impl OpDef {
     pub(super) fn validate(&self) -> Result<(), SignatureError> {
         // TODO https://github.com/CQCL/hugr/issues/624 validate declared TypeParams
         // for both type scheme and custom binary
-        if let SignatureFunc::CustomValidator(ts) = &self.signature_func {
-            // The type scheme may contain row variables so be of variable length;
-            // these will have to be substituted to fixed-length concrete types when
-            // the OpDef is instantiated into an actual OpType.
-            ts.poly_func.validate()?;
+        //
+        // The type scheme may contain row variables so be of variable length;
+        // these will have to be substituted to fixed-length concrete types when
+        // the OpDef is instantiated into an actual OpType.
+        match &self.signature_func {
+            SignatureFunc::CustomValidator(ts) => ts.poly_func.validate(),
+            SignatureFunc::PolyFuncType(ts) | SignatureFunc::MissingValidateFunc(ts) => {
+                ts.validate()
+            }
+            SignatureFunc::CustomFunc(_) | SignatureFunc::MissingComputeFunc => Ok(()),
         }
-        Ok(())
     }
 
     /// Add a lowering function to the [`OpDef`]
-- 
2.43.0


From 906fdbd6e2b16f5599c34ad7aeddbb58f325886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:14 +0000
Subject: [PATCH 085/103] fix: check recorded extension versions after
 resolving the extensions in use

---
 hugr-core/src/envelope/reader.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/envelope/reader.rs b/hugr-core/src/envelope/reader.rs
index 74ad60b..3f14f54 100644
--- a/hugr-core/src/envelope/reader.rs
+++ b/hugr-core/src/envelope/reader.rs
@@ -137,14 +137,16 @@ impl<R: BufRead> EnvelopeReader<R> {
             let desc = desc.get_or_insert_default();
             desc.load_used_extensions_generator(module)
                 .map_err(ExtensionBreakingError::from)?;
-            if let Some(used_exts) = &mut desc.used_extensions_generator {
-                check_breaking_extensions(module.extensions(), used_exts.drain(..))?;
-            }
 
             module
                 .resolve_extension_defs(&self.registry)
                 .inspect_err(|err| Self::handle_resolution_error(desc, err))?;
 
+            // The extensions in use are only known after resolving them.
+            if let Some(used_exts) = &mut desc.used_extensions_generator {
+                check_breaking_extensions(module.extensions(), used_exts.drain(..))?;
+            }
+
             // overwrite the description with the actual module read,
             // cheap so ok to repeat.
             desc.load_from_hugr(&module);
-- 
2.43.0


From 2e9ca8f76c693379f4aaacfcc63cdb8b5c6f2665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:14 +0000
Subject: [PATCH 086/103] fix: resolve again operations whose extension was
 only kept alive by the replaced registry

---
 hugr-core/src/extension/resolution/ops.rs | 12 ++++++++++++
 hugr-core/src/hugr.rs                     |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/hugr-core/src/extension/resolution/ops.rs b/hugr-core/src/extension/resolution/ops.rs
index e6727fd..2eb6d66 100644
--- a/hugr-core/src/extension/resolution/ops.rs
+++ b/hugr-core/src/extension/resolution/ops.rs
@@ -66,6 +66,18 @@ pub(crate) fn resolve_op_extensions<'e>(
 ) -> Result<Option<&'e Arc<Extension>>, ExtensionResolutionError> {
     let extension = operation_extension(node, op, extensions)?;
 
+    // An operation may have been resolved against an extension that was dropped
+    // since then, e.g. one packaged with a nested hugr. Resolve it again.
+    let dropped = match op {
+        OpType::ExtensionOp(ext_op) if ext_op.def().extension().strong_count() == 0 => {
+            Some(ext_op.make_opaque())
+        }
+        _ => None,
+    };
+    if let Some(opaque) = dropped {
+        *op = opaque.into();
+    }
+
     let OpType::OpaqueOp(opaque) = op else {
         return Ok(extension);
     };
diff --git a/hugr-core/src/hugr.rs b/hugr-core/src/hugr.rs
index 0d5cad7..8327e54 100644
--- a/hugr-core/src/hugr.rs
+++ b/hugr-core/src/hugr.rs
@@ -277,6 +277,9 @@ impl Hugr {
         extensions: &ExtensionRegistry,
     ) -> Result<(), ExtensionResolutionError> {
         let mut used_extensions = ExtensionRegistry::default();
+        // Release the previous registry, so that operations defined in extensions
+        // that only it kept alive are resolved again.
+        self.extensions = ExtensionRegistry::default();
 
         // Here we need to iterate the optypes in the hugr mutably, to avoid
         // having to clone and accumulate all replacements before finally
-- 
2.43.0


From f24106b434331bc3c81fa3b8453a549f9fa58663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:14 +0000
Subject: [PATCH 087/103] fix: resolve extensions in type parameters, alias
 definitions and self-references of packaged extensions

---
 .../src/extension/resolution/extension.rs     | 22 +++++++---
 hugr-core/src/extension/resolution/types.rs   | 37 +++++++++++-----
 .../src/extension/resolution/types_mut.rs     | 43 ++++++++++++-------
 hugr-core/src/extension/type_def.rs           |  5 +++
 hugr-core/src/types/poly_func.rs              |  5 +++
 5 files changed, 79 insertions(+), 33 deletions(-)

diff --git a/hugr-core/src/extension/resolution/extension.rs b/hugr-core/src/extension/resolution/extension.rs
index 05c0faf..63334a0 100644
--- a/hugr-core/src/extension/resolution/extension.rs
+++ b/hugr-core/src/extension/resolution/extension.rs
@@ -9,7 +9,7 @@ use std::sync::Arc;
 
 use crate::extension::{Extension, ExtensionId, ExtensionRegistry, OpDef, SignatureFunc, TypeDef};
 
-use super::types_mut::resolve_signature_exts;
+use super::types_mut::{resolve_poly_func_exts, resolve_term_exts};
 use super::{ExtensionResolutionError, WeakExtensionRegistry};
 
 impl ExtensionRegistry {
@@ -31,7 +31,11 @@ impl ExtensionRegistry {
         Self::new_cyclic(extensions, |mut exts, weak_registry| {
             let mut weak_registry = weak_registry.clone();
             for (other_id, other) in other_extensions.iter() {
-                weak_registry.register(other_id.clone(), other.clone());
+                // The extensions being defined take precedence, so that their
+                // definitions always refer to themselves.
+                if !weak_registry.contains(other_id) {
+                    weak_registry.register(other_id.clone(), other.clone());
+                }
             }
             for ext in &mut exts {
                 ext.resolve_references(&weak_registry)?;
@@ -96,6 +100,10 @@ pub(super) fn resolve_typedef_exts(
         }
     }
 
+    for param in def.params_mut() {
+        resolve_term_exts(None, param, extensions, used_extensions)?;
+    }
+
     Ok(())
 }
 
@@ -146,14 +154,14 @@ pub(super) fn resolve_signature_func_exts(
     extensions: &WeakExtensionRegistry,
     used_extensions: &mut WeakExtensionRegistry,
 ) -> Result<(), ExtensionResolutionError> {
-    let signature_body = match signature {
-        SignatureFunc::PolyFuncType(p) => p.body_mut(),
-        SignatureFunc::CustomValidator(v) => v.poly_func_mut().body_mut(),
-        SignatureFunc::MissingValidateFunc(p) => p.body_mut(),
+    let poly_func = match signature {
+        SignatureFunc::PolyFuncType(p) => p,
+        SignatureFunc::CustomValidator(v) => v.poly_func_mut(),
+        SignatureFunc::MissingValidateFunc(p) => p,
         // Binary computation functions should always return valid types.
         SignatureFunc::CustomFunc(_) | SignatureFunc::MissingComputeFunc => {
             return Ok(());
         }
     };
-    resolve_signature_exts(None, signature_body, extensions, used_extensions)
+    resolve_poly_func_exts(None, poly_func, extensions, used_extensions)
 }
diff --git a/hugr-core/src/extension/resolution/types.rs b/hugr-core/src/extension/resolution/types.rs
index 45866d5..b5c3d0a 100644
--- a/hugr-core/src/extension/resolution/types.rs
+++ b/hugr-core/src/extension/resolution/types.rs
@@ -11,7 +11,7 @@ use crate::Node;
 use crate::extension::{ExtensionRegistry, ExtensionSet};
 use crate::ops::{DataflowOpTrait, OpType, Value};
 use crate::types::type_row::TypeRowBase;
-use crate::types::{FuncTypeBase, MaybeRV, SumType, Term, TypeBase, TypeEnum};
+use crate::types::{FuncTypeBase, MaybeRV, PolyFuncTypeBase, SumType, Term, TypeBase, TypeEnum};
 
 /// Collects every extension used to define the types in an operation.
 ///
@@ -42,17 +42,13 @@ pub(crate) fn collect_op_types_extensions(
             }
             collect_signature_exts(&ext.signature(), &mut used, &mut missing);
         }
-        OpType::FuncDefn(f) => {
-            collect_signature_exts(f.signature().body(), &mut used, &mut missing)
-        }
-        OpType::FuncDecl(f) => {
-            collect_signature_exts(f.signature().body(), &mut used, &mut missing)
-        }
+        OpType::FuncDefn(f) => collect_poly_func_exts(f.signature(), &mut used, &mut missing),
+        OpType::FuncDecl(f) => collect_poly_func_exts(f.signature(), &mut used, &mut missing),
         OpType::Const(c) => collect_value_exts(&c.value, &mut used, &mut missing),
         OpType::Input(inp) => collect_type_row_exts(&inp.types, &mut used, &mut missing),
         OpType::Output(out) => collect_type_row_exts(&out.types, &mut used, &mut missing),
         OpType::Call(c) => {
-            collect_signature_exts(c.func_sig.body(), &mut used, &mut missing);
+            collect_poly_func_exts(&c.func_sig, &mut used, &mut missing);
             collect_signature_exts(&c.instantiation, &mut used, &mut missing);
             for arg in &c.type_args {
                 collect_term_exts(arg, &mut used, &mut missing);
@@ -61,7 +57,7 @@ pub(crate) fn collect_op_types_extensions(
         OpType::CallIndirect(c) => collect_signature_exts(&c.signature, &mut used, &mut missing),
         OpType::LoadConstant(lc) => collect_type_exts(&lc.datatype, &mut used, &mut missing),
         OpType::LoadFunction(lf) => {
-            collect_signature_exts(lf.func_sig.body(), &mut used, &mut missing);
+            collect_poly_func_exts(&lf.func_sig, &mut used, &mut missing);
             collect_signature_exts(&lf.instantiation, &mut used, &mut missing);
             for arg in &lf.type_args {
                 collect_term_exts(arg, &mut used, &mut missing);
@@ -107,8 +103,9 @@ pub(crate) fn collect_op_types_extensions(
         OpType::Case(case) => {
             collect_signature_exts(&case.signature, &mut used, &mut missing);
         }
+        OpType::AliasDefn(alias) => collect_type_exts(&alias.definition, &mut used, &mut missing),
         // Ignore optypes that do not store a signature.
-        OpType::Module(_) | OpType::AliasDecl(_) | OpType::AliasDefn(_) => {}
+        OpType::Module(_) | OpType::AliasDecl(_) => {}
     }
 
     if missing.is_empty() {
@@ -121,6 +118,26 @@ pub(crate) fn collect_op_types_extensions(
     }
 }
 
+/// Collect the Extension pointers in the [`CustomType`]s inside a polymorphic
+/// function type, including those in its type parameters.
+///
+/// # Attributes
+///
+/// - `poly_func`: The function type to collect the extensions from.
+/// - `used_extensions`: A The registry where to store the used extensions.
+/// - `missing_extensions`: A set of `ExtensionId`s of which the
+///   `Weak<Extension>` pointer has been invalidated.
+fn collect_poly_func_exts<RV: MaybeRV>(
+    poly_func: &PolyFuncTypeBase<RV>,
+    used_extensions: &mut WeakExtensionRegistry,
+    missing_extensions: &mut ExtensionSet,
+) {
+    for param in poly_func.params() {
+        collect_term_exts(param, used_extensions, missing_extensions);
+    }
+    collect_signature_exts(poly_func.body(), used_extensions, missing_extensions);
+}
+
 /// Collect the Extension pointers in the [`CustomType`]s inside a signature.
 ///
 /// # Attributes
diff --git a/hugr-core/src/extension/resolution/types_mut.rs b/hugr-core/src/extension/resolution/types_mut.rs
index 359241f..5cf74d2 100644
--- a/hugr-core/src/extension/resolution/types_mut.rs
+++ b/hugr-core/src/extension/resolution/types_mut.rs
@@ -10,7 +10,9 @@ use super::{ExtensionResolutionError, WeakExtensionRegistry};
 use crate::extension::ExtensionSet;
 use crate::ops::{OpType, Value};
 use crate::types::type_row::TypeRowBase;
-use crate::types::{CustomType, FuncTypeBase, MaybeRV, SumType, Term, TypeBase, TypeEnum};
+use crate::types::{
+    CustomType, FuncTypeBase, MaybeRV, PolyFuncTypeBase, SumType, Term, TypeBase, TypeEnum,
+};
 use crate::{Extension, Node};
 
 /// Replace the dangling extension pointer in the [`CustomType`]s inside an
@@ -35,20 +37,10 @@ pub fn resolve_op_types_extensions(
             resolve_signature_exts(node, ext.signature_mut(), extensions, used_extensions)?;
         }
         OpType::FuncDefn(f) => {
-            resolve_signature_exts(
-                node,
-                f.signature_mut().body_mut(),
-                extensions,
-                used_extensions,
-            )?;
+            resolve_poly_func_exts(node, f.signature_mut(), extensions, used_extensions)?;
         }
         OpType::FuncDecl(f) => {
-            resolve_signature_exts(
-                node,
-                f.signature_mut().body_mut(),
-                extensions,
-                used_extensions,
-            )?;
+            resolve_poly_func_exts(node, f.signature_mut(), extensions, used_extensions)?;
         }
         OpType::Const(c) => resolve_value_exts(node, &mut c.value, extensions, used_extensions)?,
         OpType::Input(inp) => {
@@ -58,7 +50,7 @@ pub fn resolve_op_types_extensions(
             resolve_type_row_exts(node, &mut out.types, extensions, used_extensions)?;
         }
         OpType::Call(c) => {
-            resolve_signature_exts(node, c.func_sig.body_mut(), extensions, used_extensions)?;
+            resolve_poly_func_exts(node, &mut c.func_sig, extensions, used_extensions)?;
             resolve_signature_exts(node, &mut c.instantiation, extensions, used_extensions)?;
             for arg in &mut c.type_args {
                 resolve_term_exts(node, arg, extensions, used_extensions)?;
@@ -71,7 +63,7 @@ pub fn resolve_op_types_extensions(
             resolve_type_exts(node, &mut lc.datatype, extensions, used_extensions)?;
         }
         OpType::LoadFunction(lf) => {
-            resolve_signature_exts(node, lf.func_sig.body_mut(), extensions, used_extensions)?;
+            resolve_poly_func_exts(node, &mut lf.func_sig, extensions, used_extensions)?;
             resolve_signature_exts(node, &mut lf.instantiation, extensions, used_extensions)?;
             for arg in &mut lf.type_args {
                 resolve_term_exts(node, arg, extensions, used_extensions)?;
@@ -119,12 +111,31 @@ pub fn resolve_op_types_extensions(
         OpType::Case(case) => {
             resolve_signature_exts(node, &mut case.signature, extensions, used_extensions)?;
         }
+        OpType::AliasDefn(alias) => {
+            resolve_type_exts(node, &mut alias.definition, extensions, used_extensions)?;
+        }
         // Ignore optypes that do not store a signature.
-        OpType::Module(_) | OpType::AliasDecl(_) | OpType::AliasDefn(_) => {}
+        OpType::Module(_) | OpType::AliasDecl(_) => {}
     }
     Ok(used.into_iter())
 }
 
+/// Update all weak Extension pointers in the [`CustomType`]s inside a
+/// polymorphic function type, including those in its type parameters.
+///
+/// Adds the extensions used in the type to the `used_extensions` registry.
+pub(super) fn resolve_poly_func_exts<RV: MaybeRV>(
+    node: Option<Node>,
+    poly_func: &mut PolyFuncTypeBase<RV>,
+    extensions: &WeakExtensionRegistry,
+    used_extensions: &mut WeakExtensionRegistry,
+) -> Result<(), ExtensionResolutionError> {
+    for param in poly_func.params_mut() {
+        resolve_term_exts(node, param, extensions, used_extensions)?;
+    }
+    resolve_signature_exts(node, poly_func.body_mut(), extensions, used_extensions)
+}
+
 /// Update all weak Extension pointers in the [`CustomType`]s inside a signature.
 ///
 /// Adds the extensions used in the signature to the `used_extensions` registry.
diff --git a/hugr-core/src/extension/type_def.rs b/hugr-core/src/extension/type_def.rs
index 706732f..d807bce 100644
--- a/hugr-core/src/extension/type_def.rs
+++ b/hugr-core/src/extension/type_def.rs
@@ -164,6 +164,11 @@ impl TypeDef {
         &self.params
     }
 
+    /// Returns a mutable reference to the parameters of this [`TypeDef`].
+    pub(super) fn params_mut(&mut self) -> &mut [TypeParam] {
+        &mut self.params
+    }
+
     /// The type name of the definition.
     #[must_use]
     pub fn name(&self) -> &TypeName {
diff --git a/hugr-core/src/types/poly_func.rs b/hugr-core/src/types/poly_func.rs
index 0769ef4..5da6c8e 100644
--- a/hugr-core/src/types/poly_func.rs
+++ b/hugr-core/src/types/poly_func.rs
@@ -147,6 +147,11 @@ impl<RV: MaybeRV> PolyFuncTypeBase<RV> {
         Cow::Owned(format!("∀ {params_list}. ",))
     }
 
+    /// Returns a mutable reference to the type parameters of the function type.
+    pub(crate) fn params_mut(&mut self) -> &mut [TypeParam] {
+        &mut self.params
+    }
+
     /// Returns a mutable reference to the body of the function type.
     pub fn body_mut(&mut self) -> &mut FuncTypeBase<RV> {
         &mut self.body
-- 
2.43.0


From fd75ef9d6b5f07184034fd658d334ea16aa4eb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:07 +0000
Subject: [PATCH 088/103] fix: report parametric types in declarative
 signatures instead of panicking

---
 hugr-core/src/extension/declarative.rs           | 10 ++++++++++
 hugr-core/src/extension/declarative/signature.rs |  8 ++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/hugr-core/src/extension/declarative.rs b/hugr-core/src/extension/declarative.rs
index 1599e8b..12fcbe6 100644
--- a/hugr-core/src/extension/declarative.rs
+++ b/hugr-core/src/extension/declarative.rs
@@ -253,6 +253,16 @@ pub enum ExtensionDeclarationError {
         /// The unsupported type.
         ty: String,
     },
+    /// Parametric types are not currently supported in signatures.
+    ///
+    /// TODO: Support this.
+    #[error("Parametric type {ty} in a signature of extension {ext} is not currently supported.")]
+    ParametricType {
+        /// The extension that referenced the type.
+        ext: ExtensionId,
+        /// The parametric type.
+        ty: String,
+    },
     /// Parametric port repetitions are not currently supported.
     ///
     /// TODO: Support this.
diff --git a/hugr-core/src/extension/declarative/signature.rs b/hugr-core/src/extension/declarative/signature.rs
index 2722195..9944867 100644
--- a/hugr-core/src/extension/declarative/signature.rs
+++ b/hugr-core/src/extension/declarative/signature.rs
@@ -174,8 +174,12 @@ impl TypeDeclaration {
             });
         };
 
-        // The hard-coded types are not parametric.
-        assert!(type_def.params().is_empty());
+        if !type_def.params().is_empty() {
+            return Err(ExtensionDeclarationError::ParametricType {
+                ext: ext.name().clone(),
+                ty: self.0.clone(),
+            });
+        }
         let op = type_def.instantiate(&[]).unwrap();
 
         Ok(op)
-- 
2.43.0


From a41ab8f1b2c765039b74dbff52bfb80b7097617e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:47 +0000
Subject: [PATCH 089/103] fix: resolve the references of extensions loaded from
 files by the command line tool

---
 hugr-cli/src/hugr_io.rs | 30 ++++++++++++++++++++++++++----
 hugr-cli/src/lib.rs     |  3 +++
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/hugr-cli/src/hugr_io.rs b/hugr-cli/src/hugr_io.rs
index ea9631b..f362829 100644
--- a/hugr-cli/src/hugr_io.rs
+++ b/hugr-cli/src/hugr_io.rs
@@ -3,7 +3,8 @@
 use clio::Input;
 use hugr::envelope::description::PackageDesc;
 use hugr::envelope::read_envelope;
-use hugr::extension::ExtensionRegistry;
+use hugr::extension::resolution::WeakExtensionRegistry;
+use hugr::extension::{ExtensionRegistry, ExtensionRegistryLoadError};
 use hugr::package::Package;
 use hugr::{Extension, Hugr};
 use std::io::{BufReader, Read};
@@ -114,12 +115,33 @@ impl HugrInputArgs {
             hugr::std_extensions::STD_REG.to_owned()
         };
 
-        for ext in &self.extensions {
-            let f = std::fs::File::open(ext)?;
+        // The most up to date definition of each extension is kept.
+        let mut exts: Vec<Extension> = Vec::new();
+        for path in &self.extensions {
+            let f = std::fs::File::open(path)?;
             let ext: Extension = serde_json::from_reader(f)?;
-            reg.register_updated(ext);
+            if reg
+                .get(ext.name())
+                .is_some_and(|prev| prev.version() >= ext.version())
+            {
+                continue;
+            }
+            match exts.iter_mut().find(|prev| prev.name() == ext.name()) {
+                Some(prev) if prev.version() < ext.version() => *prev = ext,
+                Some(_) => {}
+                None => exts.push(ext),
+            }
         }
 
+        // Resolve the references of the loaded extensions to themselves, to each
+        // other, and to those already in the registry.
+        let loaded = ExtensionRegistry::new_with_extension_resolution(
+            exts,
+            &WeakExtensionRegistry::from(&reg),
+        )
+        .map_err(ExtensionRegistryLoadError::from)?;
+        reg.extend(loaded.iter());
+
         Ok(reg)
     }
 }
diff --git a/hugr-cli/src/lib.rs b/hugr-cli/src/lib.rs
index da41e73..de209cb 100644
--- a/hugr-cli/src/lib.rs
+++ b/hugr-cli/src/lib.rs
@@ -111,6 +111,9 @@ pub enum CliError {
     #[error("Error reading envelope.")]
     /// Errors produced when reading an envelope.
     ReadEnvelope(#[from] hugr::envelope::ReadError),
+    #[error("Error loading extensions.")]
+    /// Errors produced when loading additional extensions.
+    LoadExtensions(#[from] hugr::extension::ExtensionRegistryLoadError),
 }
 
 impl CliError {
-- 
2.43.0


From b96088b93c6258f6185e7772e72ff6b401cc6aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:47 +0000
Subject: [PATCH 090/103] fix: convert --compress compresses when no level is
 given

---
 hugr-cli/src/convert.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hugr-cli/src/convert.rs b/hugr-cli/src/convert.rs
index 6a9aa18..f68afd5 100644
--- a/hugr-cli/src/convert.rs
+++ b/hugr-cli/src/convert.rs
@@ -85,8 +85,11 @@ impl ConvertArgs {
         };
 
         // Configure compression
-        if let Some(level) = self.compress.then_some(self.compression_level).flatten() {
-            config = config.with_zstd(ZstdConfig::new(level));
+        if self.compress {
+            let zstd = self
+                .compression_level
+                .map_or_else(ZstdConfig::default_level, ZstdConfig::new);
+            config = config.with_zstd(zstd);
         }
 
         // Write the package with the requested format
-- 
2.43.0


From fb5edca5d776113ab8a129c2ad906115d8279a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:27 +0000
Subject: [PATCH 091/103] fix: lower integer min, max and abs of every width to
 LLVM

---
 hugr-llvm/src/extension/int.rs | 40 +++++++++++-----------------------
 1 file changed, 13 insertions(+), 27 deletions(-)

diff --git a/hugr-llvm/src/extension/int.rs b/hugr-llvm/src/extension/int.rs
index 57d2f9e..18596b6 100644
--- a/hugr-llvm/src/extension/int.rs
+++ b/hugr-llvm/src/extension/int.rs
@@ -513,25 +513,23 @@ fn emit_int_op<'c, H: HugrView<Node = Node>>(
             ])
         }),
         IntOpDef::iabs => emit_custom_unary_op(context, args, |ctx, arg, _| {
-            let intr = get_intrinsic(
-                ctx.get_current_module(),
-                "llvm.abs.i64",
-                [ctx.iw_context().i64_type().as_basic_type_enum()],
-            )?;
-            let true_ = ctx.iw_context().bool_type().const_all_ones();
+            let intr = get_intrinsic(ctx.get_current_module(), "llvm.abs", [arg.get_type()])?;
+            // The result is unsigned, so the minimum value has a well-defined
+            // absolute value (rather than poison).
+            let int_min_is_poison = ctx.iw_context().bool_type().const_zero();
             let r = ctx
                 .builder()
-                .build_call(intr, &[arg.into_int_value().into(), true_.into()], "")?
+                .build_call(
+                    intr,
+                    &[arg.into_int_value().into(), int_min_is_poison.into()],
+                    "",
+                )?
                 .try_as_basic_value()
                 .unwrap_basic();
             Ok(vec![r])
         }),
         IntOpDef::imax_s => emit_custom_binary_op(context, args, |ctx, (lhs, rhs), _| {
-            let intr = get_intrinsic(
-                ctx.get_current_module(),
-                "llvm.smax.i64",
-                [ctx.iw_context().i64_type().as_basic_type_enum()],
-            )?;
+            let intr = get_intrinsic(ctx.get_current_module(), "llvm.smax", [lhs.get_type()])?;
             let r = ctx
                 .builder()
                 .build_call(
@@ -544,11 +542,7 @@ fn emit_int_op<'c, H: HugrView<Node = Node>>(
             Ok(vec![r])
         }),
         IntOpDef::imax_u => emit_custom_binary_op(context, args, |ctx, (lhs, rhs), _| {
-            let intr = get_intrinsic(
-                ctx.get_current_module(),
-                "llvm.umax.i64",
-                [ctx.iw_context().i64_type().as_basic_type_enum()],
-            )?;
+            let intr = get_intrinsic(ctx.get_current_module(), "llvm.umax", [lhs.get_type()])?;
             let r = ctx
                 .builder()
                 .build_call(
@@ -561,11 +555,7 @@ fn emit_int_op<'c, H: HugrView<Node = Node>>(
             Ok(vec![r])
         }),
         IntOpDef::imin_s => emit_custom_binary_op(context, args, |ctx, (lhs, rhs), _| {
-            let intr = get_intrinsic(
-                ctx.get_current_module(),
-                "llvm.smin.i64",
-                [ctx.iw_context().i64_type().as_basic_type_enum()],
-            )?;
+            let intr = get_intrinsic(ctx.get_current_module(), "llvm.smin", [lhs.get_type()])?;
             let r = ctx
                 .builder()
                 .build_call(
@@ -578,11 +568,7 @@ fn emit_int_op<'c, H: HugrView<Node = Node>>(
             Ok(vec![r])
         }),
         IntOpDef::imin_u => emit_custom_binary_op(context, args, |ctx, (lhs, rhs), _| {
-            let intr = get_intrinsic(
-                ctx.get_current_module(),
-                "llvm.umin.i64",
-                [ctx.iw_context().i64_type().as_basic_type_enum()],
-            )?;
+            let intr = get_intrinsic(ctx.get_current_module(), "llvm.umin", [lhs.get_type()])?;
             let r = ctx
                 .builder()
                 .build_call(
-- 
2.43.0


From 8b32fd642275d416911c689cea08b1496a4f7a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:53 +0000
Subject: [PATCH 092/103] fix: keep every other link when Python deletes a link
 or a node with parallel links

---
 hugr-py/src/hugr/hugr/base.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/hugr-py/src/hugr/hugr/base.py b/hugr-py/src/hugr/hugr/base.py
index 1ab0bd7..f214023 100644
--- a/hugr-py/src/hugr/hugr/base.py
+++ b/hugr-py/src/hugr/hugr/base.py
@@ -466,10 +466,14 @@ class Hugr(Mapping[Node, NodeData], Generic[OpVarCov]):
         parent = self[node].parent
         if parent:
             self[parent].children.remove(node)
-        for inp, _ in self.incoming_links(node):
-            self._links.delete_right(_SubPort(inp))
-        for out, _ in self.outgoing_links(node):
-            self._links.delete_left(_SubPort(out))
+        for inp, sources in self.incoming_links(node):
+            for sub_offset in reversed(range(len(sources))):
+                dst_sub = _SubPort(inp, sub_offset)
+                self._delete_sub_link(self._links.bck[dst_sub], dst_sub)
+        for out, targets in self.outgoing_links(node):
+            for sub_offset in reversed(range(len(targets))):
+                src_sub = _SubPort(out, sub_offset)
+                self._delete_sub_link(src_sub, self._links.fwd[src_sub])
 
         weight, self._nodes[node.idx] = self._nodes[node.idx], None
 
@@ -567,10 +571,23 @@ class Hugr(Mapping[Node, NodeData], Generic[OpVarCov]):
             sub_offset = next(
                 i for i, inp in enumerate(self.linked_ports(src)) if inp == dst
             )
-            self._links.delete_left(_SubPort(src, sub_offset))
         except StopIteration:
             return
-        # TODO make sure sub-offset is handled correctly
+        src_sub = _SubPort(src, sub_offset)
+        self._delete_sub_link(src_sub, self._links.fwd[src_sub])
+
+    def _delete_sub_link(self, src: _SO, dst: _SI) -> None:
+        """Delete a link between two sub-ports.
+
+        The sub-offsets of the other links of both ports are kept contiguous.
+        """
+        self._links.delete_left(src)
+        while (next_src := src.next_sub_offset()) in self._links.fwd:
+            self._links.insert_left(src, self._links.fwd[next_src])
+            src = next_src
+        while (next_dst := dst.next_sub_offset()) in self._links.bck:
+            self._links.insert_right(dst, self._links.bck[next_dst])
+            dst = next_dst
 
     def entrypoint_op(self) -> OpVarCov:
         """The operation of the root node.
-- 
2.43.0


From cebe3185dd043ddcf11a61f07dbe29a1ddb27826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:53 +0000
Subject: [PATCH 093/103] fix: ignore edges leaving the region in Python's
 sorted_region_nodes

---
 hugr-py/src/hugr/hugr/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hugr-py/src/hugr/hugr/base.py b/hugr-py/src/hugr/hugr/base.py
index f214023..2b5bb40 100644
--- a/hugr-py/src/hugr/hugr/base.py
+++ b/hugr-py/src/hugr/hugr/base.py
@@ -281,6 +281,8 @@ class Hugr(Mapping[Node, NodeData], Generic[OpVarCov]):
             yield new_node
 
             for neigh in self.output_neighbours(new_node):
+                if self[neigh].parent != parent:
+                    continue
                 visit_dict[neigh] -= 1
                 if visit_dict[neigh] == 0:
                     del visit_dict[neigh]
-- 
2.43.0


From 9e34874517d5b8d74850d93ed93976424d4337b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:53 +0000
Subject: [PATCH 094/103] fix: copy node metadata in Python's insert_hugr
 instead of sharing it

---
 hugr-py/src/hugr/hugr/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-py/src/hugr/hugr/base.py b/hugr-py/src/hugr/hugr/base.py
index 2b5bb40..3f486ac 100644
--- a/hugr-py/src/hugr/hugr/base.py
+++ b/hugr-py/src/hugr/hugr/base.py
@@ -940,7 +940,7 @@ class Hugr(Mapping[Node, NodeData], Generic[OpVarCov]):
                 node_data.op,
                 node_parent,
                 num_outs=node_data._num_outs,
-                metadata=node_data.metadata,
+                metadata=dict(node_data.metadata),
             )
 
         for src, dst in hugr._links.items():
-- 
2.43.0


From e5c81c44193339a8325426882ae0900e9f8d9138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:53 +0000
Subject: [PATCH 095/103] fix: keep the handle of the root node connected to
 its metadata when Python loads a HUGR

---
 hugr-py/src/hugr/hugr/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-py/src/hugr/hugr/base.py b/hugr-py/src/hugr/hugr/base.py
index 3f486ac..8a4f16a 100644
--- a/hugr-py/src/hugr/hugr/base.py
+++ b/hugr-py/src/hugr/hugr/base.py
@@ -1055,7 +1055,7 @@ class Hugr(Mapping[Node, NodeData], Generic[OpVarCov]):
         ), "The encoded Hugr root must be the first node"
         root_op = root_node.root.deserialize()
         hugr = Hugr(root_op)
-        hugr[hugr.entrypoint].metadata = get_meta(0)
+        hugr[hugr.entrypoint].metadata.update(get_meta(0))
         # In older versions, this may not be a module operation. If that's the
         # case, we rely on hugr's initializer to wrap the root in a module
         # and ignore the boilerplate nodes.
-- 
2.43.0


From 5bddbec8ce4e349419cc7625423b5656e856a7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:53 +0000
Subject: [PATCH 096/103] fix: renumber nodes when Python serialises a HUGR
 with deleted nodes

---
 hugr-py/src/hugr/hugr/base.py | 45 +++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/hugr-py/src/hugr/hugr/base.py b/hugr-py/src/hugr/hugr/base.py
index 8a4f16a..3078aeb 100644
--- a/hugr-py/src/hugr/hugr/base.py
+++ b/hugr-py/src/hugr/hugr/base.py
@@ -5,6 +5,7 @@ from __future__ import annotations
 import json
 from collections.abc import Iterable, Iterator, Mapping
 from dataclasses import dataclass, field
+from heapq import heappop, heappush
 from queue import Queue
 from typing import (
     TYPE_CHECKING,
@@ -81,8 +82,8 @@ class NodeData:
     children: list[Node] = field(default_factory=list, repr=False)
     metadata: dict[str, Any] = field(default_factory=dict)
 
-    def _to_serial(self, node: Node) -> SerialOp:
-        o = self.op._to_serial(self.parent if self.parent else node)
+    def _to_serial(self, parent: Node) -> SerialOp:
+        o = self.op._to_serial(parent)
 
         return SerialOp(root=o)  # type: ignore[arg-type]
 
@@ -963,6 +964,10 @@ class Hugr(Mapping[Node, NodeData], Generic[OpVarCov]):
 
     def _to_serial(self) -> SerialHugr:
         """Serialize the HUGR."""
+        # Indices may be non-contiguous or out of order after node deletions, so
+        # nodes are renumbered.
+        order = self._serial_order()
+        index = {node: serial_idx for serial_idx, node in enumerate(order)}
 
         def _serialize_link(
             link: tuple[_SO, _SI],
@@ -971,30 +976,40 @@ class Hugr(Mapping[Node, NodeData], Generic[OpVarCov]):
         ]:
             src, dst = link
             s, d = self._constrain_offset(src.port), self._constrain_offset(dst.port)
-            return (src.port.node.idx, s), (dst.port.node.idx, d)
+            return (index[src.port.node], s), (index[dst.port.node], d)
 
         nodes: list[SerialOp] = []
         metadata = []
-        entrypoint = 0
-        for node_idx, data in enumerate(self._nodes):
-            if data is None:
-                continue
-            node = Node(node_idx)
-            serial_idx = len(nodes)
-
-            # non contiguous indices will be erased
-            nodes.append(data._to_serial(Node(serial_idx, {})))
+        for node in order:
+            data = self[node]
+            parent = data.parent if data.parent is not None else node
+            nodes.append(data._to_serial(Node(index[parent], {})))
             metadata.append(data.metadata if data.metadata else None)
-            if self.entrypoint == node:
-                entrypoint = serial_idx
 
         return SerialHugr(
             nodes=nodes,
             edges=[_serialize_link(link) for link in self._links.items()],
             metadata=metadata,
-            entrypoint=entrypoint,
+            entrypoint=index[self.entrypoint],
         )
 
+    def _serial_order(self) -> list[Node]:
+        """The order in which nodes are serialized.
+
+        Nodes appear after their parent and their preceding siblings, and
+        otherwise ordered by index.
+        """
+        order: list[Node] = []
+        # The next unvisited sibling of each visited family, by index.
+        ready: list[tuple[Node, Iterator[Node]]] = [(self.module_root, iter(()))]
+        while ready:
+            node, siblings = heappop(ready)
+            order.append(node)
+            for family in (siblings, iter(self.children(node))):
+                if (first := next(family, None)) is not None:
+                    heappush(ready, (first, family))
+        return order
+
     def _constrain_offset(self, p: P) -> PortOffset | None:
         """Constrain an offset to be a valid encoded port offset.
 
-- 
2.43.0


From 2511c1e9a623b85e657cc5d2b3496dcbe9117a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:23 +0000
Subject: [PATCH 097/103] fix: keep the packaged extensions of function values
 in hugr-py

---
 hugr-py/src/hugr/_serialization/ops.py | 12 +++++++++---
 hugr-py/src/hugr/val.py                |  9 +++++++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/hugr-py/src/hugr/_serialization/ops.py b/hugr-py/src/hugr/_serialization/ops.py
index 8f602ac..eb5513a 100644
--- a/hugr-py/src/hugr/_serialization/ops.py
+++ b/hugr-py/src/hugr/_serialization/ops.py
@@ -135,10 +135,16 @@ class FunctionValue(BaseValue):
     hugr: str
 
     def deserialize(self) -> val.Value:
-        from hugr.hugr import Hugr
+        from hugr.package import Package
 
-        # pydantic stores the serialized dictionary because of the "Any" annotation
-        return val.Function(Hugr.from_str(self.hugr))
+        package = Package.from_str(self.hugr)
+        if len(package.modules) != 1:
+            msg = (
+                "Expected a single module in the function value, but got "
+                + f"{len(package.modules)} modules."
+            )
+            raise ValueError(msg)
+        return val.Function(package.modules[0], package.extensions)
 
 
 class SumValue(BaseValue):
diff --git a/hugr-py/src/hugr/val.py b/hugr-py/src/hugr/val.py
index d537c00..d0dcd50 100644
--- a/hugr-py/src/hugr/val.py
+++ b/hugr-py/src/hugr/val.py
@@ -2,7 +2,7 @@
 
 from __future__ import annotations
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from typing import TYPE_CHECKING, Any, Protocol, cast, runtime_checkable
 
 import hugr._serialization.ops as sops
@@ -14,6 +14,7 @@ from hugr.utils import comma_sep_repr, comma_sep_str, ser_it
 if TYPE_CHECKING:
     from collections.abc import Iterable
 
+    from hugr import ext
     from hugr.hugr import Hugr
 
 
@@ -315,12 +316,16 @@ class Function(Value):
     """Higher order function value, defined by a :class:`Hugr <hugr.hugr.HUGR>`."""
 
     body: Hugr
+    #: Extensions packaged with the body when it is serialized.
+    extensions: list[ext.Extension] = field(default_factory=list, repr=False)
 
     def type_(self) -> tys.FunctionType:
         return self.body.entrypoint_op().inner_signature()
 
     def _to_serial(self) -> sops.FunctionValue:
-        return sops.FunctionValue(hugr=self.body.to_str())
+        from hugr.package import Package
+
+        return sops.FunctionValue(hugr=Package([self.body], self.extensions).to_str())
 
     def to_model(self) -> model.Term:
         module = self.body.to_model()
-- 
2.43.0


From 0111ab480588c82af634e98d96222f2cf5e0ac6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:23 +0000
Subject: [PATCH 098/103] fix: hugr-py model export of CFG entry blocks that
 are branch targets

---
 hugr-py/src/hugr/model/export.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/hugr-py/src/hugr/model/export.py b/hugr-py/src/hugr/model/export.py
index 8bef32e..0e03f80 100644
--- a/hugr-py/src/hugr/model/export.py
+++ b/hugr-py/src/hugr/model/export.py
@@ -526,12 +526,14 @@ class ModelExport:
                         source_types = model.List(
                             [type.to_model() for type in op.inputs]
                         )
-                        source = str(self.link_next)
-                        self.link_next += 1
-
-                        child_node = self.export_node(
-                            child, virtual_input_links=[source]
+                        # The entry block may also be the target of branches, which
+                        # then share a link with the source of the region.
+                        source = self.link_name(InPort(child, 0))
+                        virtual_input_links = (
+                            [source] if child_data._num_inps == 0 else []
                         )
+
+                        child_node = self.export_node(child, virtual_input_links)
                     else:
                         child_node = self.export_node(child)
 
-- 
2.43.0


From f60a57fd6a3a42c48a95d162a0393060acf7743a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:23 +0000
Subject: [PATCH 099/103] fix: hugr-py model import of tuple arguments

---
 hugr-py/src/hugr/model/load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-py/src/hugr/model/load.py b/hugr-py/src/hugr/model/load.py
index 0cbb9ed..e6b7141 100644
--- a/hugr-py/src/hugr/model/load.py
+++ b/hugr-py/src/hugr/model/load.py
@@ -848,7 +848,7 @@ class ModelImport:
         def import_tuple(term: model.Term) -> TypeArg:
             tuples: list[TypeArg] = []
 
-            for group in _group_seq_parts(term.to_list_parts()):
+            for group in _group_seq_parts(term.to_tuple_parts()):
                 if isinstance(group, list):
                     tuples.append(
                         TupleArg([self.import_type_arg(item) for item in group])
-- 
2.43.0


From ff1de35fe8e07cffec63284dc1b2184ca57bd936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:23 +0000
Subject: [PATCH 100/103] fix: hugr-py model import of variables in type
 arguments

---
 hugr-py/src/hugr/model/load.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hugr-py/src/hugr/model/load.py b/hugr-py/src/hugr/model/load.py
index e6b7141..a84795f 100644
--- a/hugr-py/src/hugr/model/load.py
+++ b/hugr-py/src/hugr/model/load.py
@@ -67,6 +67,7 @@ from hugr.tys import (
     TypeTypeArg,
     TypeTypeParam,
     Variable,
+    VariableArg,
     _QubitDef,
 )
 
@@ -770,7 +771,7 @@ class ModelImport:
         for index, param in enumerate(symbol.params):
             bound = bounds.get(param.name, TypeBound.Linear)
             type = self.import_type_param(param.type, bound=bound)
-            self.local_vars[param.name] = LocalVarData(index, type)
+            self.local_vars[param.name] = LocalVarData(index, type, bound)
             param_types.append(type)
 
         body = self.import_signature(symbol.signature)
@@ -871,6 +872,10 @@ class ModelImport:
                 return import_list(term)
             case model.Tuple():
                 return import_tuple(term)
+            case model.Var(name) if not isinstance(
+                (var_data := self.lookup_var(name)).type, TypeTypeParam
+            ):
+                return VariableArg(var_data.index, var_data.type)
             case _:
                 # Assume it's a TypeTypeArg
                 return TypeTypeArg(self.import_type(term))
-- 
2.43.0


From f85cf1e44b153f9d1394c4fa7272af801ed29259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:23 +0000
Subject: [PATCH 101/103] fix: keep metadata and entrypoint of cases in hugr-py
 model envelopes

---
 hugr-py/src/hugr/model/export.py | 9 ++++++---
 hugr-py/src/hugr/model/load.py   | 9 +++++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/hugr-py/src/hugr/model/export.py b/hugr-py/src/hugr/model/export.py
index 0e03f80..027d5ab 100644
--- a/hugr-py/src/hugr/model/export.py
+++ b/hugr-py/src/hugr/model/export.py
@@ -124,7 +124,7 @@ class ModelExport:
 
             case Conditional() as op:
                 regions = [
-                    self.export_region_dfg(child, entrypoint_meta=True)
+                    self.export_region_dfg(child, region_meta=True)
                     for child in node_data.children
                 ]
 
@@ -426,7 +426,7 @@ class ModelExport:
 
         return model.Region(kind=model.RegionKind.MODULE, children=children, meta=meta)
 
-    def export_region_dfg(self, node: Node, entrypoint_meta=False) -> model.Region:
+    def export_region_dfg(self, node: Node, region_meta=False) -> model.Region:
         """Export the children of a node as a dataflow region."""
         node_data = self.hugr[node]
         children: list[model.Node] = []
@@ -436,7 +436,10 @@ class ModelExport:
         targets = []
         meta = []
 
-        if entrypoint_meta:
+        if region_meta:
+            # The node has no counterpart in the model, so its region carries
+            # the metadata.
+            meta += self.export_json_meta(node)
             meta += self.export_entrypoint_meta(node)
 
         for child in node_data.children:
diff --git a/hugr-py/src/hugr/model/load.py b/hugr-py/src/hugr/model/load.py
index a84795f..d512d74 100644
--- a/hugr-py/src/hugr/model/load.py
+++ b/hugr-py/src/hugr/model/load.py
@@ -96,8 +96,8 @@ class ModelImportError(Exception):
         super().__init__(f"{message}\n{location_error}")
 
 
-def _collect_meta_json(node: model.Node) -> dict[str, Any]:
-    """Collects the `core.meta_json` metadata on the given node."""
+def _collect_meta_json(node: model.Node | model.Region) -> dict[str, Any]:
+    """Collects the `core.meta_json` metadata on the given node or region."""
     metadata = {}
 
     for meta in node.meta:
@@ -620,7 +620,12 @@ class ModelImport:
                 case_id = self.hugr.add_node(
                     Case(inputs=case_signature.input, _outputs=case_signature.output),
                     node_id,
+                    metadata=_collect_meta_json(case_body),
                 )
+
+                if model.Apply("core.entrypoint") in case_body.meta:
+                    self.hugr.entrypoint = case_id
+
                 self.import_dfg_region(case_body, case_id)
 
             return node_id
-- 
2.43.0


From 33216c4571cec5194e82933c32c8cbb69e71fbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:20 +0000
Subject: [PATCH 102/103] fix: hugr-py model import of basic blocks with common
 outputs

---
 hugr-py/src/hugr/model/load.py | 36 ++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/hugr-py/src/hugr/model/load.py b/hugr-py/src/hugr/model/load.py
index d512d74..aa275ab 100644
--- a/hugr-py/src/hugr/model/load.py
+++ b/hugr-py/src/hugr/model/load.py
@@ -306,7 +306,7 @@ class ModelImport:
     def import_block(self, block: model.Node, parent: Node):
         # 1. Add the DataFlowBlock node:
         match block.signature:
-            case model.Apply("core.ctrl", [ctrl_inputs, ctrl_outputs]):
+            case model.Apply("core.ctrl", [ctrl_inputs, _]):
                 pass
             case _:
                 error = f"Invalid signature for {block}."
@@ -318,32 +318,38 @@ class ModelImport:
                 error = f"DFB inputs should be singleton list: {ctrl_inputs}."
                 raise ModelImportError(error)
         assert isinstance(inputs, model.Term)
+
+        # The outputs of the region tell the types in the branching sum from those
+        # that are passed to all successors.
+        [block_region] = block.regions
+        match block_region.signature:
+            case model.Apply("core.fn", [_, body_outputs]):
+                pass
+            case _:
+                error = "Basic block region expects `(core.fn _ _)` signature."
+                raise ModelImportError(error, block)
+        match list(_import_closed_list(body_outputs)):
+            case [model.Apply("core.adt", [variants]), *other_outputs]:
+                pass
+            case _:
+                error = "Basic block region expects `(core.adt _)` as first target."
+                raise ModelImportError(error, block)
+
         block_node = self.add_node(
             block,
-            # TODO The translation here seems to be underdetermined. It could be
-            # DataflowBlock(
-            #     self.import_type_row(inputs),
-            #     Sum(ts),
-            #     ss,
-            # ),
-            # where the ctrl_outputs have been expressed as:
-            # [[*ts[0], *ss], [*ts[1], *ss], ...]
-            # with ss some common suffix of the lists in ctrl_outputs. But how do we
-            # decide on that common suffix? Below we take it to be empty.
             DataflowBlock(
                 self.import_type_row(inputs),
                 Sum(
                     [
-                        self.import_type_row(cast(model.Term, output))
-                        for output in ctrl_outputs.to_list_parts()
+                        self.import_type_row(variant)
+                        for variant in _import_closed_list(variants)
                     ]
                 ),
-                [],
+                [self.import_type(t) for t in other_outputs],
             ),
             parent,
         )
         # 2. Import the dataflow region:
-        [block_region] = block.regions
         self.import_dfg_region(block_region, block_node)
 
     def import_cfg_region(
-- 
2.43.0


From 938b385cf22996d03808553bef78954e8efce8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:20 +0000
Subject: [PATCH 103/103] fix: hugr-py model import of calls to polymorphic
 functions

---
 hugr-py/src/hugr/model/load.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/hugr-py/src/hugr/model/load.py b/hugr-py/src/hugr/model/load.py
index aa275ab..629517c 100644
--- a/hugr-py/src/hugr/model/load.py
+++ b/hugr-py/src/hugr/model/load.py
@@ -264,7 +264,16 @@ class ModelImport:
 
     def link_static_ports(self):
         for symbol, callnode in self.fn_calls:
-            self.static_edges.append((self.fn_nodes[symbol], callnode))
+            fn_node = self.fn_nodes[symbol]
+            self.static_edges.append((fn_node, callnode))
+
+            # The polymorphic signature is only known once the function was imported.
+            fn_op = self.hugr[fn_node].op
+            call_op = self.hugr[callnode].op
+            assert isinstance(fn_op, FuncDefn | FuncDecl)
+            assert isinstance(call_op, Call | LoadFunc)
+            call_op.signature = fn_op.signature
+
         for src, dst in self.static_edges:
             out_port_offset = self.hugr.num_out_ports(src) - 1
             out_port = OutPort(node=src, offset=out_port_offset)
@@ -464,8 +473,7 @@ class ModelImport:
                     callnode = self.add_node(
                         node,
                         Call(
-                            # FIXME PolyFuncType needs list[TypeParam], not
-                            # list[TypeArg]. How to get this?
+                            # The parameters are filled in by `link_static_ports`.
                             signature=PolyFuncType(type_args, signature),  # type: ignore[arg-type]
                             instantiation=signature,
                             type_args=type_args,
@@ -503,8 +511,8 @@ class ModelImport:
                             loadfunc_node = self.add_node(
                                 node,
                                 LoadFunc(
-                                    # FIXME PolyFuncType needs list[TypeParam], not
-                                    # list[TypeArg]. How to get this?
+                                    # The parameters are filled in by
+                                    # `link_static_ports`.
                                     PolyFuncType(type_args, datatype),  # type: ignore[arg-type]
                                     datatype,
                                     type_args,
-- 
2.43.0

