From 10c5f9b4ac3ac6866058eb0dca86b82712aecf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:58 +0000
Subject: [PATCH 01/14] fix: collapse unions nested below a collapsed union

Tag::collapse replaced a union by its collapsed type but did not descend into
it, so a union inside e.g. {"type": ["object", "null"]} reached the Avro
translation and was cast to a string. Collapsing also overwrote a nullability
already established by the enclosing schema (e.g. an optional tuple item).
---
 src/ast.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index f350af5..059bc43 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -564,7 +564,9 @@ impl Tag {
             Type::Union(union) => {
                 let tag = union.collapse();
                 self.data_type = tag.data_type;
-                self.nullable = tag.nullable;
+                self.nullable |= tag.nullable;
+                // the collapsed type may still contain unions of its own
+                self.collapse();
             }
             _ => (),
         }
-- 
2.43.0


From 95dedded22521288ae68f0aadf5f582208a878bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:09 +0000
Subject: [PATCH 02/14] fix: keep the nullability of a single-item union

A union of one item dropped the item's own nullability and left an item that
is itself a union uncollapsed, so {"oneOf": [{"type": ["integer", "null"]}]}
became a required string.
---
 src/ast.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 059bc43..5288c77 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -102,12 +102,14 @@ impl Union {
         if self.items.is_empty() {
             panic!("empty union is not allowed")
         } else if self.items.len() == 1 {
+            let mut item = self.items[0].clone();
+            item.collapse();
             return Tag {
                 name: None,
                 namespace: None,
-                nullable: is_null,
+                nullable: is_null || item.nullable,
                 is_root: false,
-                data_type: self.items[0].data_type.clone(),
+                data_type: item.data_type,
                 description: None,
                 title: None,
             };
-- 
2.43.0


From b1cf8dec12d269c8437f57981f92084abb490811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:30 +0000
Subject: [PATCH 03/14] fix: a field is required only if every merged object
 requires it

When only one of two merged objects had a required section it was applied to
the merged object, so fields became REQUIRED although documents of the other
alternative may omit them.
---
 src/ast.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 5288c77..cd492c2 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -192,7 +192,6 @@ impl Union {
                                     (Some(x), Some(y)) => {
                                         Some(x.intersection(y).map(ToString::to_string).collect())
                                     }
-                                    (Some(x), None) | (None, Some(x)) => Some(x.clone()),
                                     _ => None,
                                 };
                             Type::Object(Object::new(result, required))
-- 
2.43.0


From 471e680995e6a8bf50a6dbd9597a0f99f85d5f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:52 +0000
Subject: [PATCH 04/14] fix: do not panic on property names without a column
 name

An empty property name, and under normalize_case a name made of separators
only, reached an unwrap on the first character. Such names are omitted like
other invalid property names.
---
 src/ast.rs | 49 ++++++++++++++++++++++++-------------------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index cd492c2..52713f0 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -356,7 +356,7 @@ impl Tag {
 
     /// If a name starts with a number, prefix it with an underscore.
     fn normalize_numeric_prefix(name: String) -> String {
-        if name.chars().next().unwrap().is_numeric() {
+        if name.chars().next().map_or(false, char::is_numeric) {
             format!("_{}", name)
         } else {
             name
@@ -376,6 +376,23 @@ impl Tag {
         }
     }
 
+    /// Normalizes a property name to a valid column name, optionally in
+    /// snake_case. Names without a valid normalized form are omitted.
+    fn normalize_name(string: &str, normalize_case: bool) -> Option<String> {
+        let renamed = Tag::normalize_name_bigquery(string)?;
+        if !normalize_case {
+            return Some(renamed);
+        }
+        // snake_casing strips symbols outside of word boundaries e.g. _64bit ->
+        // 64bit, and may leave nothing at all e.g. __
+        let cased = to_snake_case(&renamed);
+        if cased.is_empty() {
+            None
+        } else {
+            Some(Tag::normalize_numeric_prefix(cased))
+        }
+    }
+
     /// Fix properties of an object to adhere the BigQuery column name
     /// specification.
     ///
@@ -393,14 +410,7 @@ impl Tag {
 
             for key in keys {
                 // Replace property names with the normalized property name
-                if let Some(mut renamed) = Tag::normalize_name_bigquery(&key) {
-                    renamed = if normalize_case {
-                        // snake_casing strips symbols outside of word
-                        // boundaries e.g. _64bit -> 64bit
-                        Tag::normalize_numeric_prefix(to_snake_case(&renamed))
-                    } else {
-                        renamed
-                    };
+                if let Some(renamed) = Tag::normalize_name(&key, normalize_case) {
                     if renamed.as_str() != key.as_str() {
                         warn!("{} replaced with {}", key, renamed);
                         fields.insert(renamed, fields[&key].clone());
@@ -414,23 +424,12 @@ impl Tag {
 
             // Replace the corresponding names in the required field
             object.required = match &object.required {
-                Some(required) => {
-                    let renamed: HashSet<String> = required
+                Some(required) => Some(
+                    required
                         .iter()
-                        .map(String::as_str)
-                        .filter_map(Tag::normalize_name_bigquery)
-                        .collect();
-                    if normalize_case {
-                        Some(
-                            renamed
-                                .iter()
-                                .map(|s| Tag::normalize_numeric_prefix(to_snake_case(s)))
-                                .collect(),
-                        )
-                    } else {
-                        Some(renamed)
-                    }
-                }
+                        .filter_map(|name| Tag::normalize_name(name, normalize_case))
+                        .collect(),
+                ),
                 None => None,
             };
         }
-- 
2.43.0


From cd6cda9bb7b4193d30a85900b6db97b7c6cf2d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:57 +0000
Subject: [PATCH 05/14] fix: treat empty patternProperties as unspecified

An empty patternProperties built an empty union, which panics on collapse.
---
 src/jsonschema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsonschema.rs b/src/jsonschema.rs
index 5977f46..47e7051 100644
--- a/src/jsonschema.rs
+++ b/src/jsonschema.rs
@@ -260,7 +260,7 @@ impl Tag {
                             description,
                             title,
                         ),
-                        (_, Some(tag)) => {
+                        (_, Some(tag)) if !tag.is_empty() => {
                             let items: Result<Vec<_>, _> =
                                 tag.values().map(|v| v.type_into_ast(context)).collect();
                             let union = ast::Tag::new(
-- 
2.43.0


From 35f42f735e7bc339a6fe9f69e6bed96ce368b401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:02 +0000
Subject: [PATCH 06/14] fix: keep a root union of arrays or maps as one
 repeated column

The root check looked at the type before unions were collapsed, so the fields
of a repeated record at the root were extracted as top-level columns.
---
 src/bigquery.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bigquery.rs b/src/bigquery.rs
index d844498..f957e71 100644
--- a/src/bigquery.rs
+++ b/src/bigquery.rs
@@ -227,6 +227,9 @@ impl TranslateFrom<ast::Tag> for Schema {
     type Error = &'static str;
 
     fn translate_from(tag: ast::Tag, context: &Context) -> Result<Self, Self::Error> {
+        // a union at the root may collapse into an array or map
+        let mut tag = tag;
+        tag.collapse();
         let mut bq_tag = Tag::translate_from(tag.clone(), context).unwrap();
         match *bq_tag.data_type {
             // Maps and arrays are both treated as a Record type with different
-- 
2.43.0


From 6fadbe35ee130933a965709d358d452dc19ccf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:07 +0000
Subject: [PATCH 07/14] fix: anchor every alternative of json_object_path_regex

Only the first alternative of a regex such as a|b was anchored to the start of
the path.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 591a434..2b35eae 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -71,7 +71,7 @@ impl Context {
             .as_ref()
             .map(|object_regex| {
                 // Ensure we match from the beginning of the string
-                let re = format!(r"\A{}", object_regex);
+                let re = format!(r"\A(?:{})", object_regex);
                 let json_object_path_re = Regex::new(&re).unwrap();
                 json_object_path_re.is_match(fqn)
             })
-- 
2.43.0


From 515cd4199ed12469d8c72f2d2260f3f32549cfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:30 +0000
Subject: [PATCH 08/14] fix: resolve colliding property names independently of
 the hash order

Properties whose names normalize to the same column overwrote each other in
the iteration order of a HashMap, so the output changed between runs.
---
 src/ast.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 52713f0..67d4582 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -406,7 +406,9 @@ impl Tag {
     pub fn normalize_properties(&mut self, normalize_case: bool) {
         if let Type::Object(ref mut object) = self.data_type {
             let fields = &mut object.fields;
-            let keys: Vec<String> = fields.keys().cloned().collect();
+            let mut keys: Vec<String> = fields.keys().cloned().collect();
+            // Names may collide once normalized, do not depend on the hash order
+            keys.sort();
 
             for key in keys {
                 // Replace property names with the normalized property name
-- 
2.43.0


From 3477d0b3fbe790a8f63738286f6bad211c9d7457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:35 +0000
Subject: [PATCH 09/14] fix: collapse unions of equal datetime or bytes atoms
 to that atom

Equal alternatives collapse to themselves for every other atom, these two
became json.
---
 src/ast.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ast.rs b/src/ast.rs
index 67d4582..7228403 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -147,6 +147,8 @@ impl Union {
                             | (Atom::Integer, Atom::Number)
                             | (Atom::Number, Atom::Integer) => Atom::Number,
                             (Atom::String, Atom::String) => Atom::String,
+                            (Atom::Datetime, Atom::Datetime) => Atom::Datetime,
+                            (Atom::Bytes, Atom::Bytes) => Atom::Bytes,
                             (lhs, rhs) => {
                                 trace!("Invalid union collapse of atoms {:?} and {:?}", lhs, rhs);
                                 Atom::Json
-- 
2.43.0


From a3c07869b8d868164b8cb6df4775f64eea893d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:52 +0000
Subject: [PATCH 10/14] fix: leave arrays without items to the resolve method

An array without items is under-specified like an empty object, but made the
whole conversion panic under every resolve method.
---
 src/jsonschema.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/jsonschema.rs b/src/jsonschema.rs
index 47e7051..ccb4322 100644
--- a/src/jsonschema.rs
+++ b/src/jsonschema.rs
@@ -371,7 +371,14 @@ impl Tag {
                     };
                     ast::Tag::new(data_type, None, false, description, title)
                 } else {
-                    return Err("array missing item");
+                    // under-specified, left to the resolve method
+                    ast::Tag::new(
+                        ast::Type::Atom(ast::Atom::Json),
+                        None,
+                        false,
+                        description,
+                        title,
+                    )
                 }
             }
         };
-- 
2.43.0


From 32adf74ebf0ca88a39bc6a4d55f04ac82a0cc2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:31 +0000
Subject: [PATCH 11/14] fix: ignore nested unions of nulls when collapsing a
 union

---
 src/ast.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 7228403..ed2cd07 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -115,7 +115,7 @@ impl Union {
             };
         }
 
-        let items: Vec<Tag> = self
+        let mut items: Vec<Tag> = self
             .items
             .iter()
             .filter(|x| !x.is_null())
@@ -133,6 +133,8 @@ impl Union {
         // after collapsing nulls in the base case and collapsing nested unions in
         // the pre-processing step, check for nullability based on the immediate level of tags
         let nullable = is_null || items.iter().any(|tag| tag.nullable);
+        // a nested union of nulls collapses to null
+        items.retain(|x| !x.is_null());
 
         let data_type: Type = if items.iter().all(Tag::is_atom) {
             items
-- 
2.43.0


From 79c524134913e1359ec8c3f3ab19697b4a616a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:12 +0000
Subject: [PATCH 12/14] fix: reset the namespace of columns below a collapsed
 root union

json_object_path_regex did not match the columns of a nullable root object,
whose paths kept the namespace that was inferred before the union collapsed.
---
 src/ast.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index ed2cd07..afe3531 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -444,9 +444,12 @@ impl Tag {
     /// Sets a tag with references to the name and the namespace.
     fn set_name(&mut self, name: &str, namespace: &str) {
         self.name = Some(name.to_string());
-        if !namespace.is_empty() {
-            self.namespace = Some(namespace.to_string());
-        }
+        // a name that was inferred below a union may still have its namespace
+        self.namespace = if namespace.is_empty() {
+            None
+        } else {
+            Some(namespace.to_string())
+        };
     }
 
     /// A helper function for calculating the names and namespaces within the
-- 
2.43.0


From c409da9d387f5a916911f55277df601b0c2c9687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:25 +0000
Subject: [PATCH 13/14] fix: keep the title and description of a map's only
 value schema

Unlike those of additionalProperties, they were lost for patternProperties.
---
 src/jsonschema.rs | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/jsonschema.rs b/src/jsonschema.rs
index ccb4322..e579396 100644
--- a/src/jsonschema.rs
+++ b/src/jsonschema.rs
@@ -163,6 +163,22 @@ impl Tag {
         }
     }
 
+    /// The type of the values of a map, given all of their schemas. A single
+    /// schema keeps its title and description.
+    fn map_value(mut items: Vec<ast::Tag>) -> ast::Tag {
+        if items.len() == 1 {
+            items.remove(0)
+        } else {
+            ast::Tag::new(
+                ast::Type::Union(ast::Union::new(items)),
+                None,
+                false,
+                None,
+                None,
+            )
+        }
+    }
+
     fn atom_into_ast(&self, data_type: Atom, context: &Context) -> Result<ast::Tag, &'static str> {
         let description = self.description.clone();
         let title = self.title.clone();
@@ -237,13 +253,7 @@ impl Tag {
                             let pat_vec: Result<Vec<_>, _> =
                                 pat.values().map(|v| v.type_into_ast(context)).collect();
                             vec.extend(pat_vec?);
-                            let value = ast::Tag::new(
-                                ast::Type::Union(ast::Union::new(vec)),
-                                None,
-                                false,
-                                None,
-                                None,
-                            );
+                            let value = Tag::map_value(vec);
 
                             ast::Tag::new(
                                 ast::Type::Map(ast::Map::new(None, value)),
@@ -263,15 +273,9 @@ impl Tag {
                         (_, Some(tag)) if !tag.is_empty() => {
                             let items: Result<Vec<_>, _> =
                                 tag.values().map(|v| v.type_into_ast(context)).collect();
-                            let union = ast::Tag::new(
-                                ast::Type::Union(ast::Union::new(items?)),
-                                None,
-                                false,
-                                None,
-                                None,
-                            );
+                            let value = Tag::map_value(items?);
                             ast::Tag::new(
-                                ast::Type::Map(ast::Map::new(None, union)),
+                                ast::Type::Map(ast::Map::new(None, value)),
                                 None,
                                 false,
                                 description,
-- 
2.43.0


From b15d5134cabb7a777b1fdbbc2543e3342a71660e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:57 +0000
Subject: [PATCH 14/14] fix: keep the title and description of the values of a
 nullable map

A type list such as ["null", "object"] is a union of which only one
alternative is a map. The schema of its values is not merged with any other,
but it lost its title and description. The same goes for the items of a
nullable array.
---
 src/ast.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index afe3531..39f6808 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -89,6 +89,18 @@ impl Union {
         Union { items }
     }
 
+    /// The type of the items of arrays or the values of maps that are collapsed
+    /// into one. A single schema keeps its title and description.
+    fn collapse_children(mut tags: Vec<Tag>) -> Tag {
+        if tags.len() == 1 {
+            let mut tag = tags.remove(0);
+            tag.collapse();
+            tag
+        } else {
+            Union::new(tags).collapse()
+        }
+    }
+
     /// Collapse a union of types into a structurally compatible type.
     ///
     /// Typically, variant types are not allowed in a table schema. If a variant type
@@ -217,7 +229,7 @@ impl Union {
                     _ => panic!("Invalid map found during union collapse"),
                 })
                 .collect();
-            Type::Map(Map::new(None, Union::new(tags).collapse()))
+            Type::Map(Map::new(None, Union::collapse_children(tags)))
         } else if items.iter().all(Tag::is_array) {
             let tags: Vec<Tag> = items
                 .into_iter()
@@ -226,7 +238,7 @@ impl Union {
                     _ => panic!("Invalid array found during union collapse"),
                 })
                 .collect();
-            Type::Array(Array::new(Union::new(tags).collapse()))
+            Type::Array(Array::new(Union::collapse_children(tags)))
         } else {
             trace!("Incompatible union collapse found");
             Type::Atom(Atom::Json)
-- 
2.43.0

