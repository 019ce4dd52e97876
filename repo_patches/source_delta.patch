From ec35165dbc58af405461c7e5e8b313f5ce51ec79 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:40:49 +0000
Subject: [PATCH 01/74] fix: collect spread fragments from the parsed document
 instead of by regex

Fragment names with digits or underscores were truncated by the regex
(generation failed), and '...' inside string literals was taken for a spread.
---
 turms/utils.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/turms/utils.py b/turms/utils.py
index dffd2ad..48f4694 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -7,6 +7,7 @@ from graphql import (
     BooleanValueNode,
     FloatValueNode,
     FragmentDefinitionNode,
+    FragmentSpreadNode,
     GraphQLEnumType,
     GraphQLInterfaceType,
     GraphQLList,
@@ -29,9 +30,11 @@ from graphql import (
     TypeNode,
     Undefined,
     ValueNode,
+    Visitor,
     parse,
     print_ast,
     validate,
+    visit,
 )
 from graphql.error.graphql_error import GraphQLError
 from graphql.language.ast import DocumentNode, FieldNode, NameNode
@@ -529,7 +532,16 @@ def parse_documents(
     return nodes
 
 
-fragment_searcher = re.compile(r"\.\.\.(?P<fragment>[a-zA-Z]*)")
+def find_fragment_spreads(document: str) -> Set[str]:
+    """Collects the names of all fragments that are spread in the document"""
+    names: Set[str] = set()
+
+    class SpreadCollector(Visitor):
+        def enter_fragment_spread(self, node: FragmentSpreadNode, *_: object) -> None:
+            names.add(node.name.value)
+
+    visit(parse(document), SpreadCollector())
+    return names
 
 
 def auto_add_typename_field_to_fragment_str(fragment_str: str) -> str:
@@ -560,9 +572,9 @@ def replace_iteratively(
     taken: list[str] = [],
 ) -> str:
     """Replaces the fragments in the pattern with their definitions"""
-    z = set(fragment_searcher.findall(pattern))  # only set is important
+    z = find_fragment_spreads(pattern)  # only set is important
 
-    new_fragments = [new_f for new_f in z if new_f not in taken and new_f != ""]
+    new_fragments = [new_f for new_f in z if new_f not in taken]
     new_fragments.sort()
 
     if not new_fragments:
-- 
2.43.0


From b366f641327cfbe0d8cff4bafc29745ec1118702 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:41:03 +0000
Subject: [PATCH 02/74] fix: support enum, list and object literals as variable
 defaults

---
 turms/utils.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/turms/utils.py b/turms/utils.py
index 48f4694..3b42b04 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -5,6 +5,7 @@ from typing import List, Optional, Sequence, Set, Union
 
 from graphql import (
     BooleanValueNode,
+    EnumValueNode,
     FloatValueNode,
     FragmentDefinitionNode,
     FragmentSpreadNode,
@@ -20,9 +21,11 @@ from graphql import (
     GraphQLUnionType,
     IntValueNode,
     ListTypeNode,
+    ListValueNode,
     NamedTypeNode,
     NonNullTypeNode,
     NullValueNode,
+    ObjectValueNode,
     OperationDefinitionNode,
     SelectionNode,
     SelectionSetNode,
@@ -919,7 +922,9 @@ def recurse_type_label(
     raise NotImplementedError("Not implemented for this type")
 
 
-def parse_value_node(value_node: ValueNode) -> Union[None, str, int, float, bool]:
+def parse_value_node(
+    value_node: ValueNode,
+) -> Union[None, str, int, float, bool, list, dict]:
     """Parses a Value Node into a Python value
     using standard types
 
@@ -930,7 +935,7 @@ def parse_value_node(value_node: ValueNode) -> Union[None, str, int, float, bool
         NotImplementedError: If the Value Node is not supported
 
     Returns:
-        Union[None, str, int, float, bool]: The parsed value
+        Union[None, str, int, float, bool, list, dict]: The parsed value
     """
     if isinstance(value_node, IntValueNode):
         return int(value_node.value)
@@ -942,6 +947,15 @@ def parse_value_node(value_node: ValueNode) -> Union[None, str, int, float, bool
         return value_node.value == "true"
     elif isinstance(value_node, NullValueNode):
         return None
+    elif isinstance(value_node, EnumValueNode):
+        return value_node.value
+    elif isinstance(value_node, ListValueNode):
+        return [parse_value_node(value) for value in value_node.values]
+    elif isinstance(value_node, ObjectValueNode):
+        return {
+            field.name.value: parse_value_node(field.value)
+            for field in value_node.fields
+        }
     else:
         raise NotImplementedError(f"Cannot parse {value_node}")
 
-- 
2.43.0


From ed6be5974ee50fe325c68bbdb4102dc9d373f80e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:41:20 +0000
Subject: [PATCH 03/74] fix: escape enum values that are python keywords

---
 turms/plugins/enums.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/turms/plugins/enums.py b/turms/plugins/enums.py
index e06a193..e7be31e 100644
--- a/turms/plugins/enums.py
+++ b/turms/plugins/enums.py
@@ -1,6 +1,7 @@
 from pydantic_settings import SettingsConfigDict
 from turms.plugins.base import Plugin, PluginConfig
 import ast
+from keyword import iskeyword
 from typing import List, Sequence
 from turms.config import GeneratorConfig
 from graphql import GraphQLSchema
@@ -73,7 +74,12 @@ def generate_enums(
                 servalue = value.value.value
 
             assign = ast.Assign(
-                targets=[ast.Name(id=str(value_key), ctx=ast.Store())],
+                targets=[
+                    ast.Name(
+                        id=f"{value_key}_" if iskeyword(value_key) else str(value_key),
+                        ctx=ast.Store(),
+                    )
+                ],
                 value=ast.Constant(value=servalue),
             )
 
-- 
2.43.0


From 2932acffbdcf35ed25edeeb373bf5e5f8ead5d59 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:41:20 +0000
Subject: [PATCH 04/74] fix: select __typename for objects nested in inline
 fragments

---
 turms/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/turms/utils.py b/turms/utils.py
index 3b42b04..7fbb668 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -19,6 +19,7 @@ from graphql import (
     GraphQLOutputType,
     GraphQLScalarType,
     GraphQLUnionType,
+    InlineFragmentNode,
     IntValueNode,
     ListTypeNode,
     ListValueNode,
@@ -483,6 +484,9 @@ def add_typename_recursively(
     for field in selections:
         if isinstance(field, FieldNode) and field.selection_set:
             add_typename_recursively(field.selection_set)
+        elif isinstance(field, InlineFragmentNode):
+            # the parent already selects __typename for the inlined object
+            add_typename_recursively(field.selection_set, skip=True)
 
     # Update the selection set with potentially added __typename fields
     selection_set.selections = tuple(selections)
-- 
2.43.0


From f532b7431648815a5bbf76a2f92a0ac893ac0875 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:41:53 +0000
Subject: [PATCH 05/74] fix: keep nested classes of different selections from
 overwriting each other

---
 turms/recurse.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/turms/recurse.py b/turms/recurse.py
index d0e48fb..1a2dbde 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -38,6 +38,20 @@ from graphql.type.definition import (
 from turms.config import GraphQLTypes
 
 
+def unused_class_name(name: str, subtree: list[ast.ClassDef], suffix: str = "") -> str:
+    """Returns the name, numbered if its class was already generated in the subtree
+
+    Two selections can ask for the same nested class name (i.e. the same type inlined
+    in two union fields), and must not overwrite each others class.
+    """
+    taken = {node.name for node in subtree if isinstance(node, ast.ClassDef)}
+    candidate, count = name, 1
+    while f"{candidate}{suffix}" in taken:
+        count += 1
+        candidate = f"{name}{count}"
+    return candidate
+
+
 def recurse_annotation(
     node: FieldNode,
     parent: str,
@@ -89,8 +103,9 @@ def recurse_annotation(
                 union_class_names.append(fragment_name)
 
             if isinstance(sub_node, InlineFragmentNode):
-                inline_fragment_name = (
-                    f"{parent}{sub_node.type_condition.name.value}InlineFragment"
+                inline_fragment_name = unused_class_name(
+                    f"{parent}{sub_node.type_condition.name.value}InlineFragment",
+                    subtree,
                 )
                 spread_fragment_bases: list[ast.Name] = []
                 inline_field_nodes: list[ast.AnnAssign | ast.Expr] = []
@@ -219,7 +234,9 @@ def recurse_annotation(
 
         sub_nodes = non_typename_fields(node)
 
-        base_name = f"{parent}{target.capitalize()}"
+        base_name = unused_class_name(
+            f"{parent}{target.capitalize()}", subtree, suffix="Base"
+        )
 
         if type.description:
             mother_class_fields.append(
@@ -458,7 +475,9 @@ def recurse_annotation(
         pick_fields: list[ast.Expr | ast.AnnAssign] = []
 
         target = target_from_node(node)
-        object_class_name = f"{parent}{target.capitalize()}"
+        object_class_name = unused_class_name(
+            f"{parent}{target.capitalize()}", subtree
+        )
 
         if type.description:
             pick_fields.append(ast.Expr(value=ast.Constant(value=type.description)))
-- 
2.43.0


From 69838abd5f2eb1e3d4369b6dde8522382ceac84a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:41:53 +0000
Subject: [PATCH 06/74] fix: allow null for nullable union fields with a single
 selected member

---
 turms/recurse.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/turms/recurse.py b/turms/recurse.py
index 1a2dbde..e5febfe 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -224,6 +224,13 @@ def recurse_annotation(
                     slice=union_slice,
                     ctx=ast.Load(),
                 )
+        elif is_optional:
+            registry.register_import("typing.Optional")
+            return ast.Subscript(
+                value=ast.Name("Optional", ctx=ast.Load()),
+                slice=ast.Name(id=union_class_names[0], ctx=ast.Load()),
+                ctx=ast.Load(),
+            )
         else:
             return ast.Name(id=union_class_names[0], ctx=ast.Load())
 
-- 
2.43.0


From 24cc8d62be9ef5c1453d7b9d7625967ea6b5aa62 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:41:53 +0000
Subject: [PATCH 07/74] fix: emit imports and builtins in sorted order so
 output is deterministic

---
 turms/registry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/turms/registry.py b/turms/registry.py
index a53c05a..e1c0af3 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -639,7 +639,7 @@ class ClassRegistry(object):
 
         lone_top_imports: Set[str] = set()
         top_level: Dict[str, Set[str]] = {}
-        for name in self._imports:
+        for name in sorted(self._imports):
             if "." not in name:
                 lone_top_imports.add(name)
             else:
@@ -647,14 +647,14 @@ class ClassRegistry(object):
                     name.split(".")[-1]
                 )
 
-        for lone_top_import in lone_top_imports:
+        for lone_top_import in sorted(lone_top_imports):
             imports.append(ast.Import(names=[ast.alias(name=lone_top_import)]))
 
         for top_level_name, sub_level_names in top_level.items():
             imports.append(
                 ast.ImportFrom(
                     module=top_level_name,
-                    names=[ast.alias(name=name) for name in sub_level_names],
+                    names=[ast.alias(name=name) for name in sorted(sub_level_names)],
                     level=0,
                 )
             )
@@ -665,7 +665,7 @@ class ClassRegistry(object):
         """Generate the builtins for the generated code. This is used to generate the"""
         builtins: list[ast.AST] = []
 
-        for built_in in self._builtins:
+        for built_in in sorted(self._builtins):
             node = built_in_map[built_in]
             if isinstance(node, list):
                 builtins.extend(node)
-- 
2.43.0


From 96ea4669e6cfc9a8478ca7d528be546834fbe4ed Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:46:33 +0000
Subject: [PATCH 08/74] fix: order fragments spread from within inline
 fragments

---
 turms/plugins/fragments.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 0824547..d674a43 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -64,8 +64,11 @@ def find_fragment_dependencies_recursive(
                         fragment.selection_set, fragment_definitions, visited
                     )
                 )
-        # If it's a field with a nested selection set, dive deeper
-        elif isinstance(selection, FieldNode) and selection.selection_set:
+        # If it's a field or inline fragment with a nested selection set, dive deeper
+        elif (
+            isinstance(selection, (FieldNode, InlineFragmentNode))
+            and selection.selection_set
+        ):
             dependencies.update(
                 find_fragment_dependencies_recursive(
                     selection.selection_set, fragment_definitions, visited
-- 
2.43.0


From a704ce0510dd81d0bd1859dd25fbbd474150e748 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:46:34 +0000
Subject: [PATCH 09/74] fix: use the styled class of fragments spread within
 union fragments

---
 turms/plugins/fragments.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index d674a43..834c434 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -523,8 +523,14 @@ def generate_fragment(
                 fields = []
                 for field in sub_node.selection_set.selections:
                     if isinstance(field, FragmentSpreadNode):
+                        implementation = (
+                            registry.get_interface_fragment_implementation_or_none(
+                                field.name.value, on_type_name
+                            )
+                        )
                         member_class_base_classes.setdefault(on_type_name, []).append(
-                            field.name.value
+                            implementation
+                            or registry.inherit_fragment(field.name.value)
                         )
                         continue
 
-- 
2.43.0


From 53657e6f174c73f2fe77830130df7bf414504efe Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:46:34 +0000
Subject: [PATCH 10/74] fix: keep fragments spread within inline fragments of
 interfaces

---
 turms/plugins/fragments.py | 14 ++++++++++++++
 turms/recurse.py           | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 834c434..705ff6d 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -265,6 +265,20 @@ def generate_fragment(
                 inline_fields = []
 
                 for field in sub_node.selection_set.selections:
+                    if isinstance(field, FragmentSpreadNode):
+                        implementation = (
+                            registry.get_interface_fragment_implementation_or_none(
+                                field.name.value, on_type_name
+                            )
+                        )
+                        implementing_class_base_classes.setdefault(
+                            on_type_name, []
+                        ).append(
+                            implementation
+                            or registry.inherit_fragment(field.name.value)
+                        )
+                        continue
+
                     if isinstance(field, FieldNode):
                         if field.name.value == "__typename":
                             continue
diff --git a/turms/recurse.py b/turms/recurse.py
index e5febfe..1b27e1b 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -301,6 +301,20 @@ def recurse_annotation(
                 inline_fields = []
 
                 for field in sub_node.selection_set.selections:
+                    if isinstance(field, FragmentSpreadNode):
+                        implementation = (
+                            registry.get_interface_fragment_implementation_or_none(
+                                field.name.value, on_type_name
+                            )
+                        )
+                        implementing_class_base_classes.setdefault(
+                            on_type_name, []
+                        ).append(
+                            implementation
+                            or registry.inherit_fragment(field.name.value)
+                        )
+                        continue
+
                     if not isinstance(field, FieldNode):
                         continue
 
-- 
2.43.0


From cb55a57377e561e3af1a54aca15e17d95ee6443e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:47:30 +0000
Subject: [PATCH 11/74] fix: accept union members that the query selects
 nothing of

---
 turms/recurse.py | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/turms/recurse.py b/turms/recurse.py
index 1b27e1b..05ba7e9 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -5,6 +5,10 @@ from graphql.language.ast import (
     FieldNode,
     FragmentSpreadNode,
     InlineFragmentNode,
+    NamedTypeNode,
+    NameNode,
+    SelectionNode,
+    SelectionSetNode,
 )
 from turms.registry import ClassRegistry
 from turms.utils import (
@@ -52,6 +56,36 @@ def unused_class_name(name: str, subtree: list[ast.ClassDef], suffix: str = "")
     return candidate
 
 
+def unselected_members(
+    type: GraphQLUnionType,
+    sub_nodes: List[FieldNode | SelectionNode],
+    registry: ClassRegistry,
+) -> List[SelectionNode]:
+    """Returns empty inline fragments for union members the query selects nothing of
+
+    The server can return them nonetheless (with nothing but their typename).
+    """
+    selected: set[str] = set()
+    for sub_node in sub_nodes:
+        if isinstance(sub_node, InlineFragmentNode):
+            selected.add(sub_node.type_condition.name.value)
+        if isinstance(sub_node, FragmentSpreadNode):
+            fragment_type = registry.get_fragment_type(sub_node.name.value)
+            if isinstance(fragment_type, GraphQLObjectType):
+                selected.add(fragment_type.name)
+            else:
+                selected.update(member.name for member in type.types)
+
+    return [
+        InlineFragmentNode(
+            type_condition=NamedTypeNode(name=NameNode(value=member.name)),
+            selection_set=SelectionSetNode(selections=()),
+        )
+        for member in type.types
+        if member.name not in selected
+    ]
+
+
 def recurse_annotation(
     node: FieldNode,
     parent: str,
@@ -96,6 +130,7 @@ def recurse_annotation(
         union_class_names: List[str] = []
 
         sub_nodes = non_typename_fields(node)
+        sub_nodes += unselected_members(type, sub_nodes, registry)
 
         for sub_node in sub_nodes:
             if isinstance(sub_node, FragmentSpreadNode):
-- 
2.43.0


From b77e1d0d7a56af691dfbf15eac54d0be2f0755a3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:47:30 +0000
Subject: [PATCH 12/74] fix: spread interface fragments into inline fragments
 of unions

---
 turms/recurse.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/turms/recurse.py b/turms/recurse.py
index 05ba7e9..3ee8d73 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -156,9 +156,16 @@ def recurse_annotation(
                             raise Exception(
                                 "Interface Fragments with additional subfields are not yet implemented"
                             )
+                        implementation = (
+                            registry.get_interface_fragment_implementation_or_none(
+                                sub_sub_node.name.value,
+                                sub_node.type_condition.name.value,
+                            )
+                        )
                         spread_fragment_bases.append(
                             ast.Name(
-                                id=registry.inherit_fragment(sub_sub_node.name.value),
+                                id=implementation
+                                or registry.inherit_fragment(sub_sub_node.name.value),
                                 ctx=ast.Load(),
                             )
                         )
-- 
2.43.0


From 4645d1e488aeb4ad2d291a4ef65c4dc8026138a0 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:48:11 +0000
Subject: [PATCH 13/74] fix: drop class bases that other bases already imply

---
 turms/run.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/turms/run.py b/turms/run.py
index e4d3c0e..116b558 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -465,6 +465,35 @@ def parse_asts_to_string(generated_ast: List[ast.AST]) -> str:
     return ast.unparse(ast.fix_missing_locations(module))
 
 
+def drop_implied_bases(tree: List[ast.AST]) -> None:
+    """Drops bases that are repeated, or that a later base already inherits from
+
+    A selection can spread the same fragment twice, or a fragment next to another
+    one that spreads it as well, which python refuses as bases.
+    """
+    ancestors: Dict[str, set] = {}
+
+    for cls in tree:
+        if not isinstance(cls, ast.ClassDef):
+            continue
+
+        names = [base.id if isinstance(base, ast.Name) else None for base in cls.bases]
+        cls.bases = [
+            base
+            for i, base in enumerate(cls.bases)
+            if names[i] is None
+            or (
+                names[i] not in names[:i]
+                and not any(
+                    names[i] in ancestors.get(name, ()) for name in names[i + 1 :]
+                )
+            )
+        ]
+        ancestors[cls.name] = {name for name in names if name}.union(
+            *(ancestors.get(name, ()) for name in names)
+        )
+
+
 def generate_ast(
     config: GeneratorConfig,
     schema: GraphQLSchema,
@@ -502,6 +531,8 @@ def generate_ast(
                 f"{plugin.__class__.__name__} failed!\n {str(e)}"
             ) from e
 
+    drop_implied_bases(global_tree)
+
     global_tree = (
         registry.generate_imports() + registry.generate_builtins() + global_tree
     )
-- 
2.43.0


From 2903072c5c8a81aa104bc68c9cc5fe6ad58fd9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 21:51:26 +0000
Subject: [PATCH 14/74] fix: spread fragments of member types into union
 fragments

---
 turms/plugins/fragments.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 705ff6d..202fb11 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -519,12 +519,19 @@ def generate_fragment(
         for sub_node in sub_nodes:
             if isinstance(sub_node, FragmentSpreadNode):
                 # Spread nodes are like inheritance
-                # We are dealing with a fragment that is a union
-                implementation_map = registry.get_union_fragment_members(
-                    sub_node.name.value
-                )
-                for k, v in implementation_map.items():
-                    member_class_base_classes.setdefault(k, []).append(v)
+                try:
+                    # We are dealing with a fragment that is a union
+                    implementation_map = registry.get_union_fragment_members(
+                        sub_node.name.value
+                    )
+                    for k, v in implementation_map.items():
+                        member_class_base_classes.setdefault(k, []).append(v)
+
+                except KeyError:
+                    x = registry.get_fragment_type(sub_node.name.value)
+                    member_class_base_classes.setdefault(x.name, []).append(
+                        registry.inherit_fragment(sub_node.name.value)
+                    )
 
             elif isinstance(sub_node, FieldNode):
                 if sub_node.name.value == "__typename":
-- 
2.43.0


From 445b4ee4ee9235bcfe64d944cdad8bc9597da794 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:00:59 +0000
Subject: [PATCH 15/74] fix: import Field for optional operation arguments

---
 turms/plugins/operations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/turms/plugins/operations.py b/turms/plugins/operations.py
index 7af7856..20fa7a0 100644
--- a/turms/plugins/operations.py
+++ b/turms/plugins/operations.py
@@ -369,6 +369,7 @@ def generate_operation(
                     )
             else:
                 if is_optional:
+                    registry.register_import("pydantic.Field")
                     assign = ast.AnnAssign(
                         target=ast.Name(field_name, ctx=ast.Store()),
                         annotation=annotation,
-- 
2.43.0


From 836289b218744625d834cd042ec707e7422a8fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:02:30 +0000
Subject: [PATCH 16/74] fix: look up arguments of nested fields on their parent
 type when documenting functions

---
 turms/plugins/funcs.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index aecdc08..2bd2403 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -860,14 +860,13 @@ def estimate_variable_name(
                                     mapped_description
                                 )
 
-            for sub in non_typename_fields(field):
-                if isinstance(sub, FieldNode):
-                    estimate_variable_name(
-                        sub,
-                        client_schema,
-                        get_field_def(client_schema, root, field),
-                        description_map,
-                    )
+            if non_typename_fields(field):
+                estimate_variable_name(
+                    field,
+                    client_schema,
+                    get_named_type(get_field_def(client_schema, root, field).type),
+                    description_map,
+                )
 
 
 def generate_query_doc(
-- 
2.43.0


From 99698b7ffd5451ee31530182885534c23ad375ca Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:11:54 +0000
Subject: [PATCH 17/74] fix: document functions whose only field selects
 nothing but __typename

---
 turms/plugins/funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 2bd2403..5e537c0 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -731,7 +731,7 @@ def get_return_type_annotation(
         sub_nodes = non_typename_fields(collapsable_field)
         field_definition = get_field_def(client_schema, root, collapsable_field)
 
-        if len(sub_nodes) == 0:  # pragma: no cover
+        if not collapsable_field.selection_set:  # pragma: no cover
             return recurse_outputtype_annotation(field_definition.type, registry)
 
         if len(sub_nodes) == 1:  # Dealing with one Element
@@ -794,7 +794,7 @@ def get_return_type_string(
             client_schema, root, potential_return_field
         )
 
-        if len(sub_nodes) == 0:  # Dealing with a scalar type  # pragma: no cover
+        if not potential_return_field.selection_set:  # Dealing with a scalar type
             return recurse_outputtype_label(potential_return_type.type, registry)
 
         if len(sub_nodes) == 1:  # Dealing with one Element
-- 
2.43.0


From e1489d58814d718548bf8c8c45315f88718579b9 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:11:54 +0000
Subject: [PATCH 18/74] fix: unwrap non-null output types only once

---
 turms/utils.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/turms/utils.py b/turms/utils.py
index 7fbb668..160823b 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -746,8 +746,6 @@ def recurse_outputtype_annotation(
 ) -> ast.expr:
     if isinstance(type, GraphQLNonNull):
         # If the type is non-null, we need to recurse into the inner type
-        type = type.of_type
-
         return recurse_outputtype_annotation(
             type.of_type, registry, optional=False, overwrite_final=overwrite_final
         )
-- 
2.43.0


From 640885b4e12008a921eee6a07ffa97db78106118 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:15:20 +0000
Subject: [PATCH 19/74] fix: document null, list and object defaults of
 function arguments

---
 turms/plugins/funcs.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 5e537c0..70b8645 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -19,12 +19,16 @@ from graphql.type.definition import (
     GraphQLEnumType,
 )
 from graphql.language.ast import (
+    BooleanValueNode,
     FieldNode,
     NonNullTypeNode,
     OperationDefinitionNode,
     OperationType,
+    StringValueNode,
     TypeNode,
+    ValueNode,
 )
+from graphql.language.printer import print_ast
 from graphql import GraphQLSchema
 from graphql.utilities.get_operation_root_type import get_operation_root_type
 from graphql.utilities.type_info import get_field_def
@@ -869,6 +873,12 @@ def estimate_variable_name(
                 )
 
 
+def describe_default_value(default_value: ValueNode) -> str:
+    if isinstance(default_value, (StringValueNode, BooleanValueNode)):
+        return str(default_value.value)
+    return print_ast(default_value)
+
+
 def generate_query_doc(
     definition: FunctionDefinition,
     o: OperationDefinitionNode,
@@ -944,7 +954,7 @@ def generate_query_doc(
         field_description = description_map.get(v.variable.name.value, "No description")
 
         if not isinstance(v.type, NonNullTypeNode) or v.default_value:
-            description += f"    {registry.generate_parameter_name(v.variable.name.value)} ({recurse_type_label(v.type, registry)}, optional): {field_description}. {'' if not v.default_value else 'Defaults to ' + str(v.default_value.value)}\n"
+            description += f"    {registry.generate_parameter_name(v.variable.name.value)} ({recurse_type_label(v.type, registry)}, optional): {field_description}. {'' if not v.default_value else 'Defaults to ' + describe_default_value(v.default_value)}\n"
 
     extra_kwargs = get_extra_kwargs_for_onode(definition, plugin_config)
     for kwarg in extra_kwargs:
-- 
2.43.0


From 15ae70f1065288bc4f33c8bf6167c891983c4124 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 20/74] fix: honour arguments_allow_population_by_field_name

---
 turms/plugins/operations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turms/plugins/operations.py b/turms/plugins/operations.py
index 20fa7a0..64464b6 100644
--- a/turms/plugins/operations.py
+++ b/turms/plugins/operations.py
@@ -141,7 +141,8 @@ def generate_arguments_config(
                 ast.keyword(
                     arg="populate_by_name",
                     value=ast.Constant(
-                        value=config.options.allow_population_by_field_name
+                        value=plugin_config.arguments_allow_population_by_field_name
+                        or config.options.allow_population_by_field_name
                     ),
                 )
             )
-- 
2.43.0


From 9e8239f8d933b3301e8945660a323e40a6776e78 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:38:39 +0000
Subject: [PATCH 21/74] fix: rename fields whose names pydantic reserves

Names with leading underscores became private attributes and their data was
lost; names of pydantic's model_ namespace made the generated module fail.
---
 turms/plugins/input_funcs.py |  2 +-
 turms/plugins/strawberry.py  | 10 +++++-----
 turms/registry.py            | 21 +++++++++++++++++++++
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/turms/plugins/input_funcs.py b/turms/plugins/input_funcs.py
index 0164dcc..1d4294d 100644
--- a/turms/plugins/input_funcs.py
+++ b/turms/plugins/input_funcs.py
@@ -58,7 +58,7 @@ def generate_input_func(
     """Builds a factory function that constructs and returns the input model."""
     class_name = registry.get_inputtype_class(typename)
 
-    func_name = plugin_config.prepend + registry.generate_parameter_name(typename)
+    func_name = plugin_config.prepend + registry.style_parameter_name(typename)
     if func_name == class_name:
         # Avoid shadowing the model class (would make the body call itself).
         func_name += "_"
diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 8ba983e..73f3190 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -248,7 +248,7 @@ def default_generate_directives(
 
             assign = ast.AnnAssign(
                 target=ast.Name(
-                    id=registry.generate_node_name(value_key), ctx=ast.Store()
+                    id=registry.style_node_name(value_key), ctx=ast.Store()
                 ),
                 annotation=build_directive_type_annotation(type, registry),
                 value=field_value,
@@ -797,7 +797,7 @@ def generate_inputs(
 
             assign = ast.AnnAssign(
                 target=ast.Name(
-                    registry.generate_node_name(value_key), ctx=ast.Store()
+                    registry.style_node_name(value_key), ctx=ast.Store()
                 ),
                 annotation=recurse_argument_annotation(
                     value.type,
@@ -955,7 +955,7 @@ def generate_types(
                 for argkey, arg in sorted_args.items():
                     additional_args.append(
                         ast.arg(
-                            arg=registry.generate_parameter_name(argkey),
+                            arg=registry.style_parameter_name(argkey),
                             annotation=recurse_argument_annotation(
                                 arg.type,
                                 classname,
@@ -1004,7 +1004,7 @@ def generate_types(
                 # lets create a simple field
                 assign = ast.AnnAssign(
                     target=ast.Name(
-                        registry.generate_node_name(value_key), ctx=ast.Store()
+                        registry.style_node_name(value_key), ctx=ast.Store()
                     ),
                     annotation=returns,
                     value=assign_value,
@@ -1041,7 +1041,7 @@ def generate_types(
                 )
 
                 assign = function_def(
-                    name=registry.generate_node_name(value_key),
+                    name=registry.style_node_name(value_key),
                     returns=returns,
                     args=ast.arguments(
                         args=[ast.arg(arg="self")] + additional_args,
diff --git a/turms/registry.py b/turms/registry.py
index e1c0af3..492bdb5 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -3,6 +3,7 @@ from keyword import iskeyword
 from typing import Callable, Dict, List, Optional, Set, Type
 
 from graphql import DocumentNode, GraphQLNamedType
+from pydantic import BaseModel
 
 from turms.config import GeneratorConfig, LogFunction, PythonType
 from turms.errors import (
@@ -211,6 +212,20 @@ built_in_map = {
 }  # builtin map provides the default types for any schema if they are referenced
 
 
+def to_model_field_name(name: str) -> str:
+    """The name of the model field for ``name``. Names with leading underscores (private
+    attributes to pydantic) and members of pydantic's ``model_`` namespace cannot name
+    a field."""
+    if name.startswith("_"):
+        name = name.lstrip("_") + "_"
+        return name if name.isidentifier() and name != "_" else "field_" + name
+
+    if name.startswith("model_") and hasattr(BaseModel, name):
+        return name + "_"
+
+    return name
+
+
 class ClassRegistry(object):
     """Class Registry is responsible for keeping track of all the classes that are generated
     as well as their names. It also keeps track of all the imports that are required for the
@@ -529,6 +544,9 @@ class ClassRegistry(object):
         return self.fragment_class_map[typename]
 
     def generate_node_name(self, node_name: str):
+        return to_model_field_name(self.style_node_name(node_name))
+
+    def style_node_name(self, node_name: str):
         for styler in self.stylers:
             node_name = styler.style_node_name(node_name)
 
@@ -538,6 +556,9 @@ class ClassRegistry(object):
         return node_name
 
     def generate_parameter_name(self, node_name: str):
+        return to_model_field_name(self.style_parameter_name(node_name))
+
+    def style_parameter_name(self, node_name: str):
         for styler in self.stylers:
             node_name = styler.style_parameter_name(node_name)
 
-- 
2.43.0


From abcf072af57cc0973ff4182f66a9943358e23f36 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:39:41 +0000
Subject: [PATCH 22/74] fix: require fields named like pydantic model
 attributes

A field declared without a value inherits BaseModel's attribute of the same
name (schema, json, copy, ...) as its default and was not required.
---
 turms/plugins/inputs.py     |  7 +++++--
 turms/plugins/objects.py    |  7 ++++---
 turms/plugins/operations.py | 14 +++++++++++++-
 turms/recurse.py            |  7 ++++---
 turms/registry.py           |  6 ++++++
 5 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/turms/plugins/inputs.py b/turms/plugins/inputs.py
index 010f234..7b31f6d 100644
--- a/turms/plugins/inputs.py
+++ b/turms/plugins/inputs.py
@@ -22,7 +22,7 @@ from graphql.type.definition import (
     GraphQLEnumType,
 )
 from turms.referencer import create_reference_registry_from_documents
-from turms.registry import ClassRegistry
+from turms.registry import ClassRegistry, shadows_model_attribute
 from turms.utils import (
     annotate_field_metadata,
     compose_field_documentation,
@@ -182,7 +182,10 @@ def generate_input_field_value(
     # ``Field(...)`` call when there is real metadata (an alias or a description)
     # to carry.
     if not has_alias and not description:
-        return ast.Constant(value=None) if omittable else None
+        if omittable:
+            return ast.Constant(value=None)
+        if not shadows_model_attribute(field_name):
+            return None
 
     keywords = []
     if has_alias:
diff --git a/turms/plugins/objects.py b/turms/plugins/objects.py
index 1fa36c0..957a460 100644
--- a/turms/plugins/objects.py
+++ b/turms/plugins/objects.py
@@ -20,7 +20,7 @@ from pydantic import Field
 from graphql.type.definition import (
     GraphQLEnumType,
 )
-from turms.registry import ClassRegistry
+from turms.registry import ClassRegistry, shadows_model_attribute
 from turms.utils import (
     annotate_field_metadata,
     compose_field_documentation,
@@ -324,7 +324,8 @@ def generate_types(
                     simple=1,
                 )
             else:
-                if keywords:
+                needs_field = bool(keywords) or shadows_model_attribute(value_key)
+                if needs_field:
                     registry.register_import("pydantic.Field")
                 assign = ast.AnnAssign(
                     target=ast.Name(value_key, ctx=ast.Store()),
@@ -335,7 +336,7 @@ def generate_types(
                             args=[],
                             keywords=keywords,
                         )
-                        if keywords
+                        if needs_field
                         else None
                     ),
                     simple=1,
diff --git a/turms/plugins/operations.py b/turms/plugins/operations.py
index 64464b6..b7b5979 100644
--- a/turms/plugins/operations.py
+++ b/turms/plugins/operations.py
@@ -18,7 +18,7 @@ from graphql.utilities.type_info import get_field_def
 
 import re
 from graphql import NonNullTypeNode, VariableDefinitionNode, language
-from turms.registry import ClassRegistry
+from turms.registry import ClassRegistry, shadows_model_attribute
 from turms.utils import (
     annotate_field_metadata,
     generate_pydantic_config,
@@ -386,6 +386,18 @@ def generate_operation(
                         ),
                         simple=1,
                     )
+                elif shadows_model_attribute(field_name):
+                    registry.register_import("pydantic.Field")
+                    assign = ast.AnnAssign(
+                        target=ast.Name(field_name, ctx=ast.Store()),
+                        annotation=annotation,
+                        value=ast.Call(
+                            func=ast.Name(id="Field", ctx=ast.Load()),
+                            args=[],
+                            keywords=[],
+                        ),
+                        simple=1,
+                    )
                 else:
                     assign = ast.AnnAssign(
                         target=ast.Name(field_name, ctx=ast.Store()),
diff --git a/turms/recurse.py b/turms/recurse.py
index 3ee8d73..027d9eb 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -10,7 +10,7 @@ from graphql.language.ast import (
     SelectionNode,
     SelectionSetNode,
 )
-from turms.registry import ClassRegistry
+from turms.registry import ClassRegistry, shadows_model_attribute
 from turms.utils import (
     annotate_field_metadata,
     compose_field_documentation,
@@ -830,7 +830,8 @@ def type_field_node(
             simple=1,
         )
     else:
-        if keywords:
+        needs_field = bool(keywords) or shadows_model_attribute(target)
+        if needs_field:
             registry.register_import("pydantic.Field")
         assign = ast.AnnAssign(
             target=ast.Name(target, ctx=ast.Store()),
@@ -841,7 +842,7 @@ def type_field_node(
                     args=[],
                     keywords=keywords,
                 )
-                if keywords
+                if needs_field
                 else None
             ),
             simple=1,
diff --git a/turms/registry.py b/turms/registry.py
index 492bdb5..fe5393f 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -226,6 +226,12 @@ def to_model_field_name(name: str) -> str:
     return name
 
 
+def shadows_model_attribute(field_name: str) -> bool:
+    """Whether pydantic would take its own attribute of this name (``schema``, ``json``,
+    ``copy``, ...) for the default of a field that is declared without a value."""
+    return hasattr(BaseModel, field_name)
+
+
 class ClassRegistry(object):
     """Class Registry is responsible for keeping track of all the classes that are generated
     as well as their names. It also keeps track of all the imports that are required for the
-- 
2.43.0


From 63114041c54643ec85f25a44f3e8ddc32baae543 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:45:50 +0000
Subject: [PATCH 23/74] fix: keep locals of generated functions from hiding
 parameters

A variable named 'variables' or an input field named 'data' was overwritten
by the dict it should be put into.
---
 turms/plugins/funcs.py       | 53 ++++++++++++++++++++++++------------
 turms/plugins/input_funcs.py | 24 +++++++++-------
 2 files changed, 50 insertions(+), 27 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 70b8645..adca067 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -587,6 +587,7 @@ def generate_variable_assignments(
     plugin_config: FuncsPluginConfig,
     registry: ClassRegistry,
     client_schema: GraphQLSchema,
+    variables_name: str = "variables",
 ):
     """Builds the statements that assemble the ``variables`` dict for an
     operation, omitting any argument the caller left as ``UNSET``. Combined with
@@ -595,7 +596,7 @@ def generate_variable_assignments(
     stmts = []
     stmts.append(
         ast.AnnAssign(
-            target=ast.Name(id="variables", ctx=ast.Store()),
+            target=ast.Name(id=variables_name, ctx=ast.Store()),
             annotation=dict_str_any_annotation(registry),
             value=ast.Dict(keys=[], values=[]),
             simple=1,
@@ -607,7 +608,7 @@ def generate_variable_assignments(
         is_required = isinstance(v.type, NonNullTypeNode) and not v.default_value
 
         outer_subscript = ast.Subscript(
-            value=ast.Name(id="variables", ctx=ast.Load()),
+            value=ast.Name(id=variables_name, ctx=ast.Load()),
             slice=ast.Constant(value=gql_name),
             ctx=ast.Store(),
         )
@@ -976,6 +977,7 @@ def genereate_async_call(
     plugin_config: FuncsPluginConfig,
     registry: ClassRegistry,
     collapse=False,
+    variables_name="variables",
 ):
     registry.register_import(definition.use)
 
@@ -995,7 +997,7 @@ def genereate_async_call(
                     )
                     + [
                         generate_document_arg(o, registry),
-                        ast.Name(id="variables", ctx=ast.Load()),
+                        ast.Name(id=variables_name, ctx=ast.Load()),
                     ],
                 )
             )
@@ -1023,7 +1025,7 @@ def genereate_async_call(
                         )
                         + [
                             generate_document_arg(o, registry),
-                            ast.Name(id="variables", ctx=ast.Load()),
+                            ast.Name(id=variables_name, ctx=ast.Load()),
                         ],
                     )
                 ),
@@ -1041,6 +1043,7 @@ def genereate_sync_call(
     plugin_config: FuncsPluginConfig,
     registry: ClassRegistry,
     collapse=False,
+    variables_name="variables",
 ):
     registry.register_import(definition.use)
     if not collapse:
@@ -1056,7 +1059,7 @@ def genereate_sync_call(
                 args=generate_passing_extra_args_for_onode(definition, plugin_config)
                 + [
                     generate_document_arg(o, registry),
-                    ast.Name(id="variables", ctx=ast.Load()),
+                    ast.Name(id=variables_name, ctx=ast.Load()),
                 ],
             )
         )
@@ -1082,7 +1085,7 @@ def genereate_sync_call(
                     )
                     + [
                         generate_document_arg(o, registry),
-                        ast.Name(id="variables", ctx=ast.Load()),
+                        ast.Name(id=variables_name, ctx=ast.Load()),
                     ],
                 ),
                 attr=registry.generate_node_name(correct_attr),
@@ -1099,6 +1102,7 @@ def genereate_async_iterator(
     plugin_config: FuncsPluginConfig,
     registry: ClassRegistry,
     collapse=False,
+    variables_name="variables",
 ):
     registry.register_import(definition.use)
     if not collapse:
@@ -1115,7 +1119,7 @@ def genereate_async_iterator(
                 args=generate_passing_extra_args_for_onode(definition, plugin_config)
                 + [
                     generate_document_arg(o, registry),
-                    ast.Name(id="variables", ctx=ast.Load()),
+                    ast.Name(id=variables_name, ctx=ast.Load()),
                 ],
             ),
             body=[
@@ -1143,7 +1147,7 @@ def genereate_async_iterator(
                 args=generate_passing_extra_args_for_onode(definition, plugin_config)
                 + [
                     generate_document_arg(o, registry),
-                    ast.Name(id="variables", ctx=ast.Load()),
+                    ast.Name(id=variables_name, ctx=ast.Load()),
                 ],
             ),
             body=[
@@ -1169,6 +1173,7 @@ def genereate_sync_iterator(
     plugin_config: FuncsPluginConfig,
     registry: ClassRegistry,
     collapse=False,
+    variables_name="variables",
 ):
     registry.register_import(definition.use)
     if not collapse:
@@ -1185,7 +1190,7 @@ def genereate_sync_iterator(
                 args=generate_passing_extra_args_for_onode(definition, plugin_config)
                 + [
                     generate_document_arg(o, registry),
-                    ast.Name(id="variables", ctx=ast.Load()),
+                    ast.Name(id=variables_name, ctx=ast.Load()),
                 ],
             ),
             body=[
@@ -1213,7 +1218,7 @@ def genereate_sync_iterator(
                 args=generate_passing_extra_args_for_onode(definition, plugin_config)
                 + [
                     generate_document_arg(o, registry),
-                    ast.Name(id="variables", ctx=ast.Load()),
+                    ast.Name(id=variables_name, ctx=ast.Load()),
                 ],
             ),
             body=[
@@ -1236,6 +1241,15 @@ def is_collapsable(o: OperationDefinitionNode):
     return len(o.selection_set.selections) == 1
 
 
+def unused_name(name: str, parameters: ast.arguments) -> str:
+    """The name for a local variable of a function that must not hide one of its
+    parameters."""
+    taken = {arg.arg for arg in parameters.args}
+    while name in taken:
+        name = f"_{name}"
+    return name
+
+
 def generate_operation_func(
     definition: FunctionDefinition,
     o: OperationDefinitionNode,
@@ -1256,8 +1270,13 @@ def generate_operation_func(
         definition, o, client_schema, config, plugin_config, registry, collapse
     )
 
+    parameters = generate_parameters(
+        definition, o, config, plugin_config, registry, client_schema
+    )
+    variables_name = unused_name("variables", parameters)
+
     var_assignments = generate_variable_assignments(
-        o, plugin_config, registry, client_schema
+        o, plugin_config, registry, client_schema, variables_name
     )
 
     if definition.is_async:
@@ -1267,9 +1286,7 @@ def generate_operation_func(
         tree.append(
             ast.AsyncFunctionDef(
                 name=generate_async_func_name(o, plugin_config, config, registry),
-                args=generate_parameters(
-                    definition, o, config, plugin_config, registry, client_schema
-                ),
+                args=parameters,
                 body=[
                     doc,
                     *var_assignments,
@@ -1282,6 +1299,7 @@ def generate_operation_func(
                             plugin_config,
                             registry,
                             collapse,
+                            variables_name,
                         )
                         if definition.type != OperationType.SUBSCRIPTION
                         else genereate_async_iterator(
@@ -1292,6 +1310,7 @@ def generate_operation_func(
                             plugin_config,
                             registry,
                             collapse,
+                            variables_name,
                         )
                     ),
                 ],
@@ -1314,9 +1333,7 @@ def generate_operation_func(
         tree.append(
             ast.FunctionDef(
                 name=generate_sync_func_name(o, plugin_config, config, registry),
-                args=generate_parameters(
-                    definition, o, config, plugin_config, registry, client_schema
-                ),
+                args=parameters,
                 body=[
                     doc,
                     *var_assignments,
@@ -1329,6 +1346,7 @@ def generate_operation_func(
                             plugin_config,
                             registry,
                             collapse,
+                            variables_name,
                         )
                         if definition.type != OperationType.SUBSCRIPTION
                         else genereate_sync_iterator(
@@ -1339,6 +1357,7 @@ def generate_operation_func(
                             plugin_config,
                             registry,
                             collapse,
+                            variables_name,
                         )
                     ),
                 ],
diff --git a/turms/plugins/input_funcs.py b/turms/plugins/input_funcs.py
index 1d4294d..39af593 100644
--- a/turms/plugins/input_funcs.py
+++ b/turms/plugins/input_funcs.py
@@ -22,6 +22,7 @@ from pydantic_settings import SettingsConfigDict
 from turms.config import GeneratorConfig, PythonType
 from turms.plugins.base import Plugin, PluginConfig
 from turms.plugins.funcs import (
+    unused_name,
     dict_str_any_annotation,
     generate_input_type_descriptions,
     generate_input_type_params,
@@ -69,6 +70,15 @@ def generate_input_func(
         input_type, plugin_config, registry
     )
 
+    parameters = ast.arguments(
+        args=pos_args + kw_args,
+        posonlyargs=[],
+        kwonlyargs=[],
+        kw_defaults=[],
+        defaults=kw_values,
+    )
+    data_name = unused_name("data", parameters)
+
     body: List[ast.stmt] = []
 
     if plugin_config.extract_documentation:
@@ -80,7 +90,7 @@ def generate_input_func(
     # data: Dict[str, Any] = {}
     body.append(
         ast.AnnAssign(
-            target=ast.Name(id="data", ctx=ast.Store()),
+            target=ast.Name(id=data_name, ctx=ast.Store()),
             annotation=dict_str_any_annotation(registry),
             value=ast.Dict(keys=[], values=[]),
             simple=1,
@@ -92,7 +102,7 @@ def generate_input_func(
         # Key by the GraphQL field name (the model's alias) so construction works
         # regardless of populate_by_name.
         subscript = ast.Subscript(
-            value=ast.Name(id="data", ctx=ast.Load()),
+            value=ast.Name(id=data_name, ctx=ast.Load()),
             slice=ast.Constant(value=value_key),
             ctx=ast.Store(),
         )
@@ -127,7 +137,7 @@ def generate_input_func(
                 func=ast.Name(id=class_name, ctx=ast.Load()),
                 args=[],
                 keywords=[
-                    ast.keyword(arg=None, value=ast.Name(id="data", ctx=ast.Load()))
+                    ast.keyword(arg=None, value=ast.Name(id=data_name, ctx=ast.Load()))
                 ],
             )
         )
@@ -135,13 +145,7 @@ def generate_input_func(
 
     return ast.FunctionDef(
         name=func_name,
-        args=ast.arguments(
-            args=pos_args + kw_args,
-            posonlyargs=[],
-            kwonlyargs=[],
-            kw_defaults=[],
-            defaults=kw_values,
-        ),
+        args=parameters,
         body=body,
         decorator_list=[],
         returns=ast.Name(id=class_name, ctx=ast.Load()),
-- 
2.43.0


From 2517fbd9cc86946497084210cf6e13ddf8c32764 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:45:50 +0000
Subject: [PATCH 24/74] fix: import Optional for keyword arguments without
 default

---
 turms/plugins/funcs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index adca067..c09bdd1 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -542,6 +542,7 @@ def generate_parameters(
         if kwarg.default is None:
             # if we set the default to None, we need to make the annotation optional
             # complies with PEP 484
+            registry.register_import("typing.Optional")
             annotation = ast.Subscript(
                 value=ast.Name(id="Optional", ctx=ast.Load()),
                 slice=annotation,
-- 
2.43.0


From f78f42ab10072dc74f4e3ab051944a2e07bea198 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:46:31 +0000
Subject: [PATCH 25/74] fix: describe function arguments by the field argument
 they fill

---
 turms/plugins/funcs.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index c09bdd1..de745c6 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -851,10 +851,8 @@ def estimate_variable_name(
             for arg in field.arguments:
                 the_field = get_field_def(client_schema, root, field)
                 if isinstance(arg.value, VariableNode):
-                    if arg.value.name.value in the_field.args:
-                        mapped_description = the_field.args[
-                            arg.value.name.value
-                        ].description
+                    if arg.name.value in the_field.args:
+                        mapped_description = the_field.args[arg.name.value].description
 
                         if mapped_description:
                             if arg.value.name.value in description_map:
-- 
2.43.0


From 626bf6c0c423b42b592aad5f6d557c0bb999e8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:47:59 +0000
Subject: [PATCH 26/74] fix: expand only required input variables into
 parameters

Optional variables and lists listed in expand_input_types made the function
refer to parameters it did not have, or generation crash.
---
 turms/plugins/funcs.py | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index de745c6..27df538 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -27,6 +27,7 @@ from graphql.language.ast import (
     StringValueNode,
     TypeNode,
     ValueNode,
+    VariableDefinitionNode,
 )
 from graphql.language.printer import print_ast
 from graphql import GraphQLSchema
@@ -447,6 +448,24 @@ def generate_input_type_params(
     return pos_args, kw_args, kw_values
 
 
+def get_expanded_input_type(
+    variable: VariableDefinitionNode,
+    plugin_config: FuncsPluginConfig,
+    client_schema: GraphQLSchema,
+) -> Optional[GraphQLInputObjectType]:
+    """The input type that is spread into one parameter per field, or ``None`` when the
+    variable stays a single parameter. Only a required variable of an input type can be
+    spread: an optional one may be omitted or null, a list has no fields."""
+    if variable.variable.name.value not in plugin_config.expand_input_types:
+        return None
+    if not isinstance(variable.type, NonNullTypeNode) or variable.default_value:
+        return None
+    if not isinstance(variable.type.type, NamedTypeNode):
+        return None
+    type = client_schema.type_map[variable.type.type.name.value]
+    return type if isinstance(type, GraphQLInputObjectType) else None
+
+
 def generate_parameters(
     definition: FunctionDefinition,
     operation_definition: OperationDefinitionNode,
@@ -487,11 +506,9 @@ def generate_parameters(
     non_expandable_args = []
 
     for v in arg_variables:
-        if v.variable.name.value in plugin_config.expand_input_types:
-            input_type = v.type
-
-            type = client_schema.type_map[input_type.type.name.value]
+        type = get_expanded_input_type(v, plugin_config, client_schema)
 
+        if type is not None:
             expanded_pos_args, expanded_kw_args, expanded_kw_values = (
                 generate_input_type_params(type, plugin_config, registry)
             )
@@ -614,10 +631,11 @@ def generate_variable_assignments(
             ctx=ast.Store(),
         )
 
-        if gql_name in plugin_config.expand_input_types:
+        input_type = get_expanded_input_type(v, plugin_config, client_schema)
+
+        if input_type is not None:
             # The input is spread into one parameter per field; build the inner
             # dict, omitting fields the caller did not provide.
-            input_type = client_schema.type_map[v.type.type.name.value]
             if is_oneof_input_type(input_type):
                 registry.warn(
                     f"Input type '{input_type.name}' is a @oneOf input: expanding "
@@ -935,11 +953,9 @@ def generate_query_doc(
         description += f"    {arg.key} ({arg.type}): {arg.description}\n"
 
     for v in o.variable_definitions:
-        if v.variable.name.value in plugin_config.expand_input_types:
-            input_type = v.type
-
-            type = client_schema.type_map[input_type.type.name.value]
+        type = get_expanded_input_type(v, plugin_config, client_schema)
 
+        if type is not None:
             description += generate_input_type_descriptions(type, registry)
 
         else:
-- 
2.43.0


From 9436cd92db5b2a70bc34168da84f3f845c015525 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:49:00 +0000
Subject: [PATCH 27/74] fix: input fields with a default are optional
 parameters

Input factories and expanded inputs demanded non-null fields although the
schema gives them a default, so the server's default was unreachable.
---
 turms/plugins/funcs.py       | 5 +++--
 turms/plugins/input_funcs.py | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 27df538..17b84fd 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -14,6 +14,7 @@ from graphql import (
     NamedTypeNode,
     VariableNode,
     get_named_type,
+    is_required_input_field,
 )
 from graphql.type.definition import (
     GraphQLEnumType,
@@ -416,7 +417,7 @@ def generate_input_type_params(
     for value_key, value in input_type.fields.items():
         field_name = registry.generate_node_name(value_key)
 
-        if isinstance(value.type, GraphQLNonNull):
+        if is_required_input_field(value):
             pos_args.append(
                 ast.arg(
                     arg=field_name,
@@ -659,7 +660,7 @@ def generate_variable_assignments(
                     ctx=ast.Store(),
                 )
                 field_value = ast.Name(id=field_param, ctx=ast.Load())
-                if isinstance(field.type, GraphQLNonNull):
+                if is_required_input_field(field):
                     # required field → always present (positional parameter)
                     stmts.append(
                         ast.Assign(targets=[field_subscript], value=field_value)
diff --git a/turms/plugins/input_funcs.py b/turms/plugins/input_funcs.py
index 39af593..13c4fcd 100644
--- a/turms/plugins/input_funcs.py
+++ b/turms/plugins/input_funcs.py
@@ -15,7 +15,7 @@ plugin; the input model / pydantic performs the coercion.
 import ast
 from typing import Dict, List
 
-from graphql import GraphQLInputObjectType, GraphQLNonNull, GraphQLSchema
+from graphql import GraphQLInputObjectType, GraphQLSchema, is_required_input_field
 from pydantic import Field
 from pydantic_settings import SettingsConfigDict
 
@@ -108,7 +108,7 @@ def generate_input_func(
         )
         param_value = ast.Name(id=field_param, ctx=ast.Load())
 
-        if isinstance(value.type, GraphQLNonNull):
+        if is_required_input_field(value):
             # required -> always present
             body.append(ast.Assign(targets=[subscript], value=param_value))
         else:
-- 
2.43.0


From c71a2d780acb6814c661b4d1ba5e620c5ef40ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 22:59:07 +0000
Subject: [PATCH 28/74] fix: keep single-member oneOf serializers off the
 member model

For a recursive member pydantic put the wrapping serializer onto the member's
own schema, so plain fields of that type were sent wrapped in the tag.
---
 turms/plugins/inputs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/turms/plugins/inputs.py b/turms/plugins/inputs.py
index 7b31f6d..ce8dbb0 100644
--- a/turms/plugins/inputs.py
+++ b/turms/plugins/inputs.py
@@ -503,6 +503,11 @@ def generate_oneof_direct_union(
     if len(member_classnames) > 1:
         registry.register_import("typing.Union")
         union = f"Union[{union}]"
+    else:
+        # Without a union around it, pydantic may attach the serializer to the
+        # member model itself and tag the member wherever else it is used.
+        registry.register_import("pydantic.AfterValidator")
+        union = f"{union}, AfterValidator(lambda value: value)"
 
     registry.register_import("typing.Annotated")
     registry.register_import("pydantic.WrapSerializer")
-- 
2.43.0


From f89932503db261a9dea97ce45a03eb09a43551ff Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:01:04 +0000
Subject: [PATCH 29/74] fix: generate no factories for input unions

They called the Union alias, which cannot be instantiated.
---
 turms/plugins/input_funcs.py | 4 ++++
 turms/plugins/inputs.py      | 3 +++
 turms/registry.py            | 2 ++
 3 files changed, 9 insertions(+)

diff --git a/turms/plugins/input_funcs.py b/turms/plugins/input_funcs.py
index 13c4fcd..4b41671 100644
--- a/turms/plugins/input_funcs.py
+++ b/turms/plugins/input_funcs.py
@@ -185,6 +185,10 @@ def generate_input_funcs(
         if key not in registry.inputtype_class_map:
             continue
 
+        # A union of models has no fields of its own to construct it from.
+        if key in registry.inputtype_unions:
+            continue
+
         tree.append(
             generate_input_func(key, type, config, plugin_config, registry)
         )
diff --git a/turms/plugins/inputs.py b/turms/plugins/inputs.py
index ce8dbb0..b7b3620 100644
--- a/turms/plugins/inputs.py
+++ b/turms/plugins/inputs.py
@@ -474,6 +474,7 @@ def generate_oneof_wrapper_input(
         )
 
     alias_name = registry.generate_inputtype(key)
+    registry.inputtype_unions.add(key)
     tree.append(generate_union_alias(alias_name, member_names, registry))
     return tree
 
@@ -489,6 +490,7 @@ def generate_oneof_direct_union(
     ``{fieldName: memberDict}`` wire form. Must be emitted after all member
     classes (the tag dict references them at module level)."""
     alias_name = registry.generate_inputtype(key)
+    registry.inputtype_unions.add(key)
     serializer_name = f"_serialize_{_snake(alias_name)}"
 
     member_classnames = {
@@ -673,6 +675,7 @@ def generate_inputs(
             continue
 
         if type.name in union_input_types:
+            registry.inputtype_unions.add(type.name)
             registry.register_import("typing.Union")
             registry.register_import("typing.Annotated")
             registry.register_import("pydantic.Field")
diff --git a/turms/registry.py b/turms/registry.py
index fe5393f..870927b 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -257,6 +257,8 @@ class ClassRegistry(object):
 
         self.enum_class_map: Dict[str, str] = {}
         self.inputtype_class_map: Dict[str, str] = {}
+        # input types generated as a union of models, which cannot be instantiated
+        self.inputtype_unions: Set[str] = set()
         self.object_class_map: Dict[str, str] = {}
         self.interface_reference_map: Dict[str, str] = {}
         self.interface_baseclass_map: Dict[str, str] = {}
-- 
2.43.0


From a1491c68c1a1ae0687c601c2b86709c33bdf4d43 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:07:31 +0000
Subject: [PATCH 30/74] fix: name discriminators like other input fields and
 allow single-member input unions

---
 turms/plugins/inputs.py | 42 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/turms/plugins/inputs.py b/turms/plugins/inputs.py
index b7b3620..c619490 100644
--- a/turms/plugins/inputs.py
+++ b/turms/plugins/inputs.py
@@ -231,9 +231,20 @@ def generate_input_type(
     for discriminator in discriminators or []:
         registry.register_import("typing.Literal")
         registry.register_import("pydantic.Field")
+        field_name = registry.generate_node_name(discriminator.discriminator)
+        alias = (
+            [
+                ast.keyword(
+                    arg="alias",
+                    value=ast.Constant(value=discriminator.discriminator),
+                )
+            ]
+            if field_name != discriminator.discriminator
+            else []
+        )
         fields.append(
             ast.AnnAssign(
-                target=ast.Name(discriminator.discriminator, ctx=ast.Store()),
+                target=ast.Name(field_name, ctx=ast.Store()),
                 annotation=ast.Subscript(
                     value=ast.Name("Literal", ctx=ast.Load()),
                     slice=ast.Constant(value=discriminator.value),
@@ -242,7 +253,8 @@ def generate_input_type(
                 value=ast.Call(
                     func=ast.Name(id="Field", ctx=ast.Load()),
                     args=[],
-                    keywords=[
+                    keywords=alias
+                    + [
                         ast.keyword(
                             arg="default", value=ast.Constant(value=discriminator.value)
                         )
@@ -261,7 +273,7 @@ def generate_input_type(
 
     for value_key, value in type.fields.items():
         field_name = registry.generate_node_name(value_key)
-        if field_name in discriminator_names:
+        if value_key in discriminator_names:
             continue
         # A field is omittable (and thus optional, defaulting to None) when it is
         # nullable OR carries a schema default. For a default we no longer bake the
@@ -322,7 +334,9 @@ def generate_input_type(
         # exclude_unset dump (the proxy contract) would drop it from the wire —
         # but the server needs it to discriminate. Mark it as set on every
         # construction so it always serializes.
-        names = ", ".join(repr(d.discriminator) for d in discriminators)
+        names = ", ".join(
+            repr(registry.generate_node_name(d.discriminator)) for d in discriminators
+        )
         fields += ast.parse(
             "def model_post_init(self, context):\n"
             f"    self.__pydantic_fields_set__.update({{{names}}})\n"
@@ -676,6 +690,22 @@ def generate_inputs(
 
         if type.name in union_input_types:
             registry.inputtype_unions.add(type.name)
+            if len(union_input_types[type.name]) == 1:
+                # pydantic refuses to discriminate a single variant
+                tree.append(
+                    ast.Assign(
+                        targets=[
+                            ast.Name(
+                                id=registry.generate_inputtype(type.name),
+                                ctx=ast.Store(),
+                            )
+                        ],
+                        value=ast.Name(
+                            id=union_input_types[type.name][0], ctx=ast.Load()
+                        ),
+                    )
+                )
+                continue
             registry.register_import("typing.Union")
             registry.register_import("typing.Annotated")
             registry.register_import("pydantic.Field")
@@ -701,7 +731,9 @@ def generate_inputs(
                             ast.keyword(
                                 arg="discriminator",
                                 value=ast.Constant(
-                                    union_type_discriminators[type.name]
+                                    registry.generate_node_name(
+                                        union_type_discriminators[type.name]
+                                    )
                                 ),
                             )
                         ],
-- 
2.43.0


From 38f16a6e6346997c6c5b7719d7c592a49d74f231 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:10:34 +0000
Subject: [PATCH 31/74] fix: escape enum values reserved by python's Enum

---
 turms/plugins/enums.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/enums.py b/turms/plugins/enums.py
index e7be31e..fd21bcd 100644
--- a/turms/plugins/enums.py
+++ b/turms/plugins/enums.py
@@ -2,7 +2,7 @@ from pydantic_settings import SettingsConfigDict
 from turms.plugins.base import Plugin, PluginConfig
 import ast
 from keyword import iskeyword
-from typing import List, Sequence
+from typing import Container, List, Sequence
 from turms.config import GeneratorConfig
 from graphql import GraphQLSchema
 from pydantic import Field
@@ -28,6 +28,20 @@ class EnumsPluginConfig(PluginConfig):
     append: str = ""
 
 
+def generate_member_name(value_key: str, taken: Container[str]) -> str:
+    """The python name of an enum value: names that python or the Enum
+    machinery reserve (keywords, `mro`, `_sunder_`) get a trailing underscore"""
+    name = value_key
+    while (
+        iskeyword(name)
+        or name == "mro"
+        or (name[:1] == name[-1:] == "_" and name[1:-1].strip("_") == name[1:-1] != "")
+        or (name != value_key and name in taken)
+    ):
+        name = f"{name}_"
+    return name
+
+
 def generate_enums(
     client_schema: GraphQLSchema,
     config: GeneratorConfig,
@@ -76,7 +90,7 @@ def generate_enums(
             assign = ast.Assign(
                 targets=[
                     ast.Name(
-                        id=f"{value_key}_" if iskeyword(value_key) else str(value_key),
+                        id=generate_member_name(value_key, type.values),
                         ctx=ast.Store(),
                     )
                 ],
-- 
2.43.0


From e988bc447af2365e344f509b9ce758718df070a3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:11:37 +0000
Subject: [PATCH 32/74] fix: document why enum values are deprecated

---
 turms/plugins/enums.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/turms/plugins/enums.py b/turms/plugins/enums.py
index fd21bcd..49d5388 100644
--- a/turms/plugins/enums.py
+++ b/turms/plugins/enums.py
@@ -10,7 +10,7 @@ from graphql.type.definition import (
     GraphQLEnumType,
 )
 from turms.referencer import create_reference_registry_from_documents
-from turms.utils import parse_documents
+from turms.utils import compose_field_documentation, parse_documents
 from turms.registry import ClassRegistry
 
 
@@ -97,10 +97,9 @@ def generate_enums(
                 value=ast.Constant(value=servalue),
             )
 
-            potential_comment = (
-                value.description
-                if not value.deprecation_reason
-                else f"DEPRECATED: {value.description}"
+            potential_comment = compose_field_documentation(
+                description=value.description,
+                deprecation_reason=value.deprecation_reason,
             )
 
             if potential_comment:
-- 
2.43.0


From 8d10a0ab2c5ea23b0e585756d271f114dba1a107 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:21:04 +0000
Subject: [PATCH 33/74] fix: keep polyfilled typing imports in order

---
 turms/parsers/polyfill.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/turms/parsers/polyfill.py b/turms/parsers/polyfill.py
index 458b81d..20d2712 100644
--- a/turms/parsers/polyfill.py
+++ b/turms/parsers/polyfill.py
@@ -30,25 +30,29 @@ def polyfill_python_seven(
         if isinstance(node, ast.ImportFrom):
             if node.module == "typing":
                 # okay imports
-                aliases = {alias.name for alias in node.names}
-                need_extensions = aliases.intersection({"Literal"})
+                need_extensions = [
+                    alias for alias in node.names if alias.name in {"Literal"}
+                ]
                 if need_extensions:
                     new_nodes.append(
                         ast.ImportFrom(
                             module="typing_extensions",
-                            names=[ast.alias(name=name) for name in need_extensions],
+                            names=need_extensions,
                             level=0,
                         )
                     )
 
-                okay_imports = aliases - need_extensions
-                new_nodes.append(
-                    ast.ImportFrom(
-                        names=[ast.alias(name=name) for name in okay_imports],
-                        module="typing",
-                        level=0,
+                okay_imports = [
+                    alias for alias in node.names if alias not in need_extensions
+                ]
+                if okay_imports:
+                    new_nodes.append(
+                        ast.ImportFrom(
+                            names=okay_imports,
+                            module="typing",
+                            level=0,
+                        )
                     )
-                )
             else:
                 new_nodes.append(node)
 
-- 
2.43.0


From 31b9dc75c63351e30cd887aa5e17f420a8c9c125 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:43:30 +0000
Subject: [PATCH 34/74] fix: keep files of a document or schema glob apart

---
 turms/helpers.py |  7 ++-----
 turms/run.py     | 10 +++++-----
 turms/utils.py   |  7 ++++---
 3 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/turms/helpers.py b/turms/helpers.py
index 97ec390..c280e38 100644
--- a/turms/helpers.py
+++ b/turms/helpers.py
@@ -132,11 +132,8 @@ def load_dsl_from_glob(
     if len(schema_glob) == 0:
         raise GenerationError(f"No files found for glob string {glob_string}")
 
-    dsl_string = ""
-    for file in schema_glob:
-        dsl_string += load_dsl_from_file(file)
-
-    return dsl_string
+    # a file may end in a comment or within a token
+    return "\n".join(load_dsl_from_file(file) for file in schema_glob)
 
 
 def load_introspection_from_glob(
diff --git a/turms/run.py b/turms/run.py
index 116b558..94e242e 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -327,7 +327,7 @@ def build_schema_from_schema_type(
             for key, value in schema.items():
                 dsl_subschemas.append(load_dsl_from_url(key, value.headers))
 
-            return build_ast_schema(parse(" ".join(dsl_subschemas)))
+            return build_ast_schema(parse("\n".join(dsl_subschemas)))
 
     if isinstance(schema, list):
         if len(schema) == 1:
@@ -340,15 +340,15 @@ def build_schema_from_schema_type(
             dsl_subschemas = []
 
             for item in schema:
-                if is_url(item):
-                    dsl_subschemas.append(load_dsl_from_url(item))
                 if isinstance(item, dict):
                     for key, value in item.items():
                         dsl_subschemas.append(load_dsl_from_url(key, value.headers))
-                if isinstance(item, str):
+                elif is_url(str(item)):
+                    dsl_subschemas.append(load_dsl_from_url(str(item)))
+                else:
                     dsl_subschemas.append(load_dsl_from_glob(item))
 
-            return build_ast_schema(parse(" ".join(dsl_subschemas)))
+            return build_ast_schema(parse("\n".join(dsl_subschemas)))
 
     if is_url(schema):
         try:
diff --git a/turms/utils.py b/turms/utils.py
index 160823b..80b72a4 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -518,10 +518,11 @@ def parse_documents(
     dsl = ""
 
     for file in x:
-        with open(file, "r") as f:
-            dsl += f.read()
+        with open(file, "r", encoding="utf-8-sig") as f:
+            # a file may end in a comment or within a token
+            dsl += f.read() + "\n"
 
-    if dsl == "":
+    if dsl.strip() == "":
         raise NoDocumentsFoundError(
             f"Glob {scan_glob} did not find documents. Or only empty documents"
         )
-- 
2.43.0


From 3ac062fb5b35f510ba6ac6080b9dab3b642ac4bc Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:47:53 +0000
Subject: [PATCH 35/74] fix: merge enum values and other plain assignments

---
 turms/processors/merge.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/turms/processors/merge.py b/turms/processors/merge.py
index 5a90b04..ef1b64b 100644
--- a/turms/processors/merge.py
+++ b/turms/processors/merge.py
@@ -9,11 +9,17 @@ import os
 
 
 def retrieve_symbol_name(simple_statement: cst.SimpleStatementLine):
-    for node in simple_statement.body:
-        if isinstance(node, cst.AnnAssign):
-            return node.target.value
+    """The name a line assigns to, if that assignment is all the line does"""
+    if len(simple_statement.body) != 1:
+        return None
+    node = simple_statement.body[0]
+    if isinstance(node, cst.AnnAssign):
+        target = node.target
+    elif isinstance(node, cst.Assign) and len(node.targets) == 1:
+        target = node.targets[0].target
     else:
         return None
+    return target.value if isinstance(target, cst.Name) else None
 
 
 def merge_functions(generated: cst.FunctionDef, existing: cst.FunctionDef):
-- 
2.43.0


From 2e43b46c4ed0d01e346865650f3dc131c42e3a0a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:47:53 +0000
Subject: [PATCH 36/74] fix: merge nested classes and keep members rewritten as
 another kind

---
 turms/processors/merge.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/turms/processors/merge.py b/turms/processors/merge.py
index ef1b64b..f69024f 100644
--- a/turms/processors/merge.py
+++ b/turms/processors/merge.py
@@ -51,7 +51,7 @@ def merge_class(generated: cst.ClassDef, existing: cst.ClassDef):
     generated_indented_block = generated.body
 
     for node in generated_indented_block.body:
-        if isinstance(node, cst.FunctionDef):
+        if isinstance(node, (cst.FunctionDef, cst.ClassDef)):
             body_symbols[node.name.value] = node
 
         if isinstance(node, cst.SimpleStatementLine):
@@ -69,18 +69,18 @@ def merge_class(generated: cst.ClassDef, existing: cst.ClassDef):
             if name is not None:
                 if name in body_symbols:
                     body_symbol_position[name] = len(new_body)
-                    new_body.append(merge_statements(body_symbols[name], node))
+                    new_body.append(merge_definitions(body_symbols[name], node))
                     body_implemented_symbols.append(name)
                 else:
                     new_body.append(node)
             else:
                 new_body.append(node)
 
-        elif isinstance(node, cst.FunctionDef):
+        elif isinstance(node, (cst.FunctionDef, cst.ClassDef)):
             if node.name.value in body_symbols:
                 x = body_symbols[node.name.value]
                 body_symbol_position[node.name.value] = len(new_body)
-                new_body.append(merge_functions(x, node))
+                new_body.append(merge_definitions(x, node))
                 body_implemented_symbols.append(node.name.value)
             else:
                 new_body.append(node)
@@ -134,6 +134,18 @@ def merge_class(generated: cst.ClassDef, existing: cst.ClassDef):
     return new_class
 
 
+def merge_definitions(generated: cst.CSTNode, existing: cst.CSTNode):
+    # what was rewritten by hand as another kind of definition is kept,
+    # like a field that became a method
+    if type(generated) is not type(existing):
+        return existing
+    if isinstance(existing, cst.ClassDef):
+        return merge_class(generated, existing)
+    if isinstance(existing, cst.FunctionDef):
+        return merge_functions(generated, existing)
+    return merge_statements(generated, existing)
+
+
 class MergeProcessorConfig(ProcessorConfig):
     type: str = "turms.processors.merge.MergeProcessor"
 
@@ -170,7 +182,7 @@ def merge_code(old_code: str, new_code: str, config: MergeProcessorConfig):
                 # merge the two classes
 
                 symbol_position[node.name.value] = len(new_body)
-                new_body.append(merge_class(x, node))
+                new_body.append(merge_definitions(x, node))
                 implemented_symbols.append(node.name.value)
             else:
                 new_body.append(node)
@@ -181,7 +193,7 @@ def merge_code(old_code: str, new_code: str, config: MergeProcessorConfig):
                 x = symbols[node.name.value]
 
                 symbol_position[node.name.value] = len(new_body)
-                new_body.append(merge_functions(x, node))
+                new_body.append(merge_definitions(x, node))
                 implemented_symbols.append(node.name.value)
             else:
                 new_body.append(node)
-- 
2.43.0


From 5da040222df65175b200b2307325b11707a5e3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:49:48 +0000
Subject: [PATCH 37/74] fix: merge new definitions after the ones they were
 generated behind

---
 turms/processors/merge.py | 115 +++++++++++---------------------------
 1 file changed, 32 insertions(+), 83 deletions(-)

diff --git a/turms/processors/merge.py b/turms/processors/merge.py
index f69024f..34f46e0 100644
--- a/turms/processors/merge.py
+++ b/turms/processors/merge.py
@@ -42,10 +42,38 @@ def merge_statements(
     return new_def
 
 
+def insert_missing(body: list, symbols: OrderedDict, positions: OrderedDict) -> list:
+    """Adds the symbols without a position to the body
+
+    Each goes before the next symbol the body already has, but never before one that
+    was generated ahead of it (and that it might need), wherever that was moved to.
+    """
+    insertions = {}
+    earliest = 0
+
+    for name, node in symbols.items():
+        if name in positions:
+            earliest = max(earliest, positions[name] + 1)
+            continue
+        following = [index for index in positions.values() if index >= earliest]
+        if following:
+            index = min(following)
+        elif positions:
+            index = earliest
+        else:
+            index = len(body)
+        insertions.setdefault(index, []).append(node)
+
+    updated_body = []
+    for index in range(len(body) + 1):
+        updated_body += insertions.get(index, [])
+        updated_body += body[index : index + 1]
+    return updated_body
+
+
 def merge_class(generated: cst.ClassDef, existing: cst.ClassDef):
     # merge the two classes
     body_symbols = OrderedDict()
-    body_implemented_symbols = []
     body_symbol_position = OrderedDict()
 
     generated_indented_block = generated.body
@@ -70,7 +98,6 @@ def merge_class(generated: cst.ClassDef, existing: cst.ClassDef):
                 if name in body_symbols:
                     body_symbol_position[name] = len(new_body)
                     new_body.append(merge_definitions(body_symbols[name], node))
-                    body_implemented_symbols.append(name)
                 else:
                     new_body.append(node)
             else:
@@ -81,51 +108,14 @@ def merge_class(generated: cst.ClassDef, existing: cst.ClassDef):
                 x = body_symbols[node.name.value]
                 body_symbol_position[node.name.value] = len(new_body)
                 new_body.append(merge_definitions(x, node))
-                body_implemented_symbols.append(node.name.value)
             else:
                 new_body.append(node)
 
         else:
             new_body.append(node)
 
-    # add the missing classes at the right position
-
-    body_missing_symbols = [
-        key for key in body_symbols.keys() if key not in body_implemented_symbols
-    ]
-
-    beforemap = {}  # a map index and a list of symbols to insert before
-    aftermap = {}
-
-    # add the missing classes at the right position
-    last_key = None
-    for existingkey in body_implemented_symbols:
-        last_key = existingkey
-        for key, value in body_symbols.items():
-            if existingkey == key:
-                break
-            if key in body_missing_symbols:
-                body_missing_symbols.remove(key)
-                beforemap.setdefault(body_symbol_position[existingkey], []).append(
-                    key
-                )  # we need to reverse
-
-    if last_key is not None:
-        aftermap[body_symbol_position[last_key]] = body_missing_symbols
-
-    updated_body = []
-    for index, node in enumerate(new_body):
-        if index in beforemap:
-            for missingkey in beforemap[index]:
-                updated_body.append(body_symbols[missingkey])
-        updated_body.append(node)
-        if index in aftermap:
-            for missingkey in aftermap[index]:
-                updated_body.append(body_symbols[missingkey])
-
-    if last_key is None:
-        for missingkey in body_missing_symbols:
-            updated_body.append(body_symbols[missingkey])
+    # add the missing members at the right position
+    updated_body = insert_missing(new_body, body_symbols, body_symbol_position)
 
     new_class = existing.with_changes(
         body=existing_indented_block.with_changes(body=updated_body)
@@ -157,9 +147,6 @@ def merge_code(old_code: str, new_code: str, config: MergeProcessorConfig):
 
     symbols = OrderedDict()
 
-    implemented_symbols = []
-    new_symbols = set()
-
     new_body = []
 
     # merge the two ast.Module
@@ -167,11 +154,9 @@ def merge_code(old_code: str, new_code: str, config: MergeProcessorConfig):
 
         if isinstance(node, cst.ClassDef):
             symbols[node.name.value] = node
-            new_symbols.add(node.name.value)
 
         if isinstance(node, cst.FunctionDef):
             symbols[node.name.value] = node
-            new_symbols.add(node.name.value)
 
     symbol_position = {}
 
@@ -183,7 +168,6 @@ def merge_code(old_code: str, new_code: str, config: MergeProcessorConfig):
 
                 symbol_position[node.name.value] = len(new_body)
                 new_body.append(merge_definitions(x, node))
-                implemented_symbols.append(node.name.value)
             else:
                 new_body.append(node)
 
@@ -194,7 +178,6 @@ def merge_code(old_code: str, new_code: str, config: MergeProcessorConfig):
 
                 symbol_position[node.name.value] = len(new_body)
                 new_body.append(merge_definitions(x, node))
-                implemented_symbols.append(node.name.value)
             else:
                 new_body.append(node)
 
@@ -202,41 +185,7 @@ def merge_code(old_code: str, new_code: str, config: MergeProcessorConfig):
             new_body.append(node)
 
     # add the missing classes at the right position
-
-    missing_symbols = [key for key in symbols.keys() if key not in implemented_symbols]
-
-    beforemap = {}  # a map index and a list of symbols to insert before
-    aftermap = {}
-
-    # add the missing classes at the right position
-    last_key = None
-    for existingkey in implemented_symbols:
-        last_key = existingkey
-        for key, value in symbols.items():
-            if existingkey == key:
-                break
-            if key in missing_symbols:
-                missing_symbols.remove(key)
-                beforemap.setdefault(symbol_position[existingkey], []).append(
-                    key
-                )  # we need to reverse
-
-    if last_key is not None:
-        aftermap[symbol_position[last_key]] = missing_symbols
-
-    updated_body = []
-    for index, node in enumerate(new_body):
-        if index in beforemap:
-            for missingkey in beforemap[index]:
-                updated_body.append(symbols[missingkey])
-        updated_body.append(node)
-        if index in aftermap:
-            for missingkey in aftermap[index]:
-                updated_body.append(symbols[missingkey])
-
-    if last_key is None:
-        for missingkey in missing_symbols:
-            updated_body.append(symbols[missingkey])
+    updated_body = insert_missing(new_body, symbols, symbol_position)
 
     md = cst.Module(body=updated_body)
 
-- 
2.43.0


From 9a39198d62d04747b0bec641de5dd832f16adb82 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:49:48 +0000
Subject: [PATCH 38/74] fix: merge into classes written on a single line

---
 turms/processors/merge.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/turms/processors/merge.py b/turms/processors/merge.py
index 34f46e0..1c032e0 100644
--- a/turms/processors/merge.py
+++ b/turms/processors/merge.py
@@ -71,12 +71,19 @@ def insert_missing(body: list, symbols: OrderedDict, positions: OrderedDict) ->
     return updated_body
 
 
+def indented(body: cst.BaseSuite) -> cst.IndentedBlock:
+    """The body as a block, even if it was written on the line of the header"""
+    if isinstance(body, cst.SimpleStatementSuite):
+        return cst.IndentedBlock(body=[cst.SimpleStatementLine(body=body.body)])
+    return body
+
+
 def merge_class(generated: cst.ClassDef, existing: cst.ClassDef):
     # merge the two classes
     body_symbols = OrderedDict()
     body_symbol_position = OrderedDict()
 
-    generated_indented_block = generated.body
+    generated_indented_block = indented(generated.body)
 
     for node in generated_indented_block.body:
         if isinstance(node, (cst.FunctionDef, cst.ClassDef)):
@@ -87,7 +94,7 @@ def merge_class(generated: cst.ClassDef, existing: cst.ClassDef):
             if retrieve_symbol_name(node) is not None:
                 body_symbols[x] = node
 
-    existing_indented_block = existing.body
+    existing_indented_block = indented(existing.body)
 
     new_body = []
 
-- 
2.43.0


From a47e81a1e5717bcbcb159ea670be13dccaafb57a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:50:32 +0000
Subject: [PATCH 39/74] fix: keep comments around merged modules

---
 turms/processors/merge.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/turms/processors/merge.py b/turms/processors/merge.py
index 1c032e0..bf88d0c 100644
--- a/turms/processors/merge.py
+++ b/turms/processors/merge.py
@@ -194,9 +194,7 @@ def merge_code(old_code: str, new_code: str, config: MergeProcessorConfig):
     # add the missing classes at the right position
     updated_body = insert_missing(new_body, symbols, symbol_position)
 
-    md = cst.Module(body=updated_body)
-
-    return md.code
+    return existing_module.with_changes(body=updated_body).code
 
 
 class MergeProcessor(Processor):
@@ -231,7 +229,7 @@ class MergeProcessor(Processor):
             return gen_file
 
         # the one we want to merge into
-        with open(old_generated_file) as f:
+        with open(old_generated_file, encoding="utf-8") as f:
             existing_code = f.read()
 
         return merge_code(existing_code, gen_file, self.config)
-- 
2.43.0


From 9649250a6e59796ae08b8885cd8354ffaad7d82f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:54:01 +0000
Subject: [PATCH 40/74] fix: merge imports, assignments and calls of the
 generated module

---
 turms/processors/merge.py | 92 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 92 insertions(+)

diff --git a/turms/processors/merge.py b/turms/processors/merge.py
index bf88d0c..2d03a40 100644
--- a/turms/processors/merge.py
+++ b/turms/processors/merge.py
@@ -94,6 +94,9 @@ def merge_class(generated: cst.ClassDef, existing: cst.ClassDef):
             if retrieve_symbol_name(node) is not None:
                 body_symbols[x] = node
 
+    if not body_symbols:
+        return existing
+
     existing_indented_block = indented(existing.body)
 
     new_body = []
@@ -131,6 +134,77 @@ def merge_class(generated: cst.ClassDef, existing: cst.ClassDef):
     return new_class
 
 
+def is_docstring(node: cst.CSTNode) -> bool:
+    return (
+        isinstance(node, cst.SimpleStatementLine)
+        and isinstance(node.body[0], cst.Expr)
+        and isinstance(
+            node.body[0].value, (cst.SimpleString, cst.ConcatenatedString)
+        )
+    )
+
+
+def is_import(node: cst.CSTNode) -> bool:
+    return isinstance(node, cst.SimpleStatementLine) and all(
+        isinstance(statement, (cst.Import, cst.ImportFrom)) for statement in node.body
+    )
+
+
+def code_of(node: cst.CSTNode) -> str:
+    return cst.Module(body=[]).code_for_node(
+        node.with_changes(semicolon=cst.MaybeSentinel.DEFAULT)
+    )
+
+
+def single_imports(module: cst.Module) -> "OrderedDict[str, cst.CSTNode]":
+    """Every import on the top level of the module, as a statement of its own"""
+    imports = OrderedDict()
+    for node in module.body:
+        for statement in node.body if is_import(node) else []:
+            if isinstance(statement.names, cst.ImportStar):
+                imports[code_of(statement)] = statement
+                continue
+            for alias in statement.names:
+                single = type(statement)(
+                    names=[alias.with_changes(comma=cst.MaybeSentinel.DEFAULT)],
+                    **(
+                        {"module": statement.module, "relative": statement.relative}
+                        if isinstance(statement, cst.ImportFrom)
+                        else {}
+                    ),
+                )
+                imports[code_of(single)] = single
+    return imports
+
+
+def missing_imports(generated: cst.Module, existing: cst.Module) -> list:
+    """The imports of the generated module that the existing one does not have"""
+    known = single_imports(existing)
+    return [
+        cst.SimpleStatementLine(body=[statement])
+        for code, statement in single_imports(generated).items()
+        if code not in known
+    ]
+
+
+def missing_calls(generated: cst.Module, existing: cst.Module) -> list:
+    """The expressions (like rebuilding a model) the existing module does not evaluate"""
+    known = {
+        code_of(statement)
+        for node in existing.body
+        if isinstance(node, cst.SimpleStatementLine)
+        for statement in node.body
+    }
+    return [
+        node
+        for node in generated.body
+        if isinstance(node, cst.SimpleStatementLine)
+        and isinstance(node.body[0], cst.Expr)
+        and not is_docstring(node)
+        and code_of(node.body[0]) not in known
+    ]
+
+
 def merge_definitions(generated: cst.CSTNode, existing: cst.CSTNode):
     # what was rewritten by hand as another kind of definition is kept,
     # like a field that became a method
@@ -165,6 +239,10 @@ def merge_code(old_code: str, new_code: str, config: MergeProcessorConfig):
         if isinstance(node, cst.FunctionDef):
             symbols[node.name.value] = node
 
+        if isinstance(node, cst.SimpleStatementLine):
+            if retrieve_symbol_name(node) is not None:
+                symbols[retrieve_symbol_name(node)] = node
+
     symbol_position = {}
 
     for node in existing_module.body:
@@ -189,11 +267,25 @@ def merge_code(old_code: str, new_code: str, config: MergeProcessorConfig):
                 new_body.append(node)
 
         else:
+            if isinstance(node, cst.SimpleStatementLine):
+                # kept as it is, like a scalar that was given another implementation
+                name = retrieve_symbol_name(node)
+                if name in symbols:
+                    symbol_position[name] = len(new_body)
             new_body.append(node)
 
     # add the missing classes at the right position
     updated_body = insert_missing(new_body, symbols, symbol_position)
 
+    # the leading imports of the existing module stay ahead of the missing ones
+    start = 0
+    while start < len(updated_body) and (
+        is_import(updated_body[start]) or (start == 0 and is_docstring(updated_body[0]))
+    ):
+        start += 1
+    updated_body[start:start] = missing_imports(new_module, existing_module)
+    updated_body += missing_calls(new_module, existing_module)
+
     return existing_module.with_changes(body=updated_body).code
 
 
-- 
2.43.0


From 57e4f4e616011b4b686d73c655b48ba8b1181447 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:58:44 +0000
Subject: [PATCH 41/74] fix: apply pydantic options under their current names
 and only once

---
 turms/utils.py | 68 +++++++++++++-------------------------------------
 1 file changed, 18 insertions(+), 50 deletions(-)

diff --git a/turms/utils.py b/turms/utils.py
index 80b72a4..6beecd1 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -1,7 +1,7 @@
 import ast
 import glob
 import re
-from typing import List, Optional, Sequence, Set, Union
+from typing import Any, Dict, List, Optional, Sequence, Set, Union
 
 from graphql import (
     BooleanValueNode,
@@ -223,7 +223,7 @@ def generate_config_dict(
 
     """
 
-    config_keywords: List[ast.keyword] = []
+    settings: Dict[str, Any] = {}
 
     if config.freeze.enabled:
         if graphQLType in config.freeze.types:
@@ -232,9 +232,7 @@ def generate_config_dict(
             elif config.freeze.include and typename not in config.freeze.include:
                 pass
             else:
-                config_keywords.append(
-                    ast.keyword(arg="frozen", value=ast.Constant(value=True))
-                )
+                settings["frozen"] = True
 
     if config.options.enabled:
         if graphQLType in config.options.types:
@@ -244,64 +242,31 @@ def generate_config_dict(
                 pass
             else:
                 if config.options.allow_mutation is not None:
-                    config_keywords.append(
-                        ast.keyword(
-                            arg="allow_mutation",
-                            value=ast.Constant(value=config.options.allow_mutation),
-                        )
-                    )
+                    # called allow_mutation before pydantic v2
+                    settings.setdefault("frozen", not config.options.allow_mutation)
 
                 if config.options.extra is not None:
-                    config_keywords.append(
-                        ast.keyword(
-                            arg="extra", value=ast.Constant(value=config.options.extra)
-                        )
-                    )
+                    settings["extra"] = config.options.extra
 
                 if config.options.validate_assignment is not None:
-                    config_keywords.append(
-                        ast.keyword(
-                            arg="validate_assignment",
-                            value=ast.Constant(
-                                value=config.options.validate_assignment
-                            ),
-                        )
-                    )
+                    settings["validate_assignment"] = config.options.validate_assignment
 
                 if config.options.allow_population_by_field_name is not None:
-                    config_keywords.append(
-                        ast.keyword(
-                            arg="populate_by_name",
-                            value=ast.Constant(
-                                value=config.options.allow_population_by_field_name
-                            ),
-                        )
+                    settings["populate_by_name"] = (
+                        config.options.allow_population_by_field_name
                     )
 
                 if config.options.orm_mode is not None:
-                    config_keywords.append(
-                        ast.keyword(
-                            arg="orm_mode",
-                            value=ast.Constant(value=config.options.orm_mode),
-                        )
-                    )
+                    # called orm_mode before pydantic v2
+                    settings["from_attributes"] = config.options.orm_mode
 
                 if config.options.use_enum_values is not None:
-                    config_keywords.append(
-                        ast.keyword(
-                            arg="use_enum_values",
-                            value=ast.Constant(value=config.options.use_enum_values),
-                        )
-                    )
+                    settings["use_enum_values"] = config.options.use_enum_values
 
     if typename:
-        if typename in config.additional_config:
-            for key, value in config.additional_config[typename].items():
-                config_keywords.append(
-                    ast.keyword(arg=key, value=ast.Constant(value=value))
-                )
+        settings.update(config.additional_config.get(typename, {}))
 
-    if len(config_keywords) > 0:
+    if settings:
         registy.register_import("pydantic.ConfigDict")
         return [
             ast.Assign(
@@ -309,7 +274,10 @@ def generate_config_dict(
                 value=ast.Call(
                     func=ast.Name(id="ConfigDict", ctx=ast.Load()),
                     args=[],
-                    keywords=config_keywords,
+                    keywords=[
+                        ast.keyword(arg=key, value=ast.Constant(value=value))
+                        for key, value in settings.items()
+                    ],
                 ),
             )
         ]
-- 
2.43.0


From 002995ea0568928a57d1502da038254047568348 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:59:46 +0000
Subject: [PATCH 42/74] fix: apply freeze and options to operations

---
 turms/plugins/operations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/operations.py b/turms/plugins/operations.py
index b7b5979..05ab7ed 100644
--- a/turms/plugins/operations.py
+++ b/turms/plugins/operations.py
@@ -2,7 +2,7 @@ import ast
 from typing import List, Optional
 
 from pydantic_settings import SettingsConfigDict
-from turms.config import GeneratorConfig
+from turms.config import GeneratorConfig, GraphQLTypes
 from graphql import GraphQLSchema, InputObjectTypeDefinitionNode
 from graphql.language.ast import OperationDefinitionNode, OperationType
 from turms.recurse import type_field_node
@@ -468,7 +468,9 @@ def generate_operation(
             type_params=[],
             body=merge_body_sequences(
                 class_body_fields,
-                generate_pydantic_config(o.operation, config, registry),
+                generate_pydantic_config(
+                    GraphQLTypes(o.operation.value), config, registry
+                ),
             ),
         )
     )
-- 
2.43.0


From 053c0dbde64c6673f25f78d7411f4c0f000e5948 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 00:01:26 +0000
Subject: [PATCH 43/74] fix: apply freeze and options to every fragment and
 selection by its type

---
 turms/plugins/fragments.py | 18 +++++++++++++++---
 turms/recurse.py           | 20 ++++++++++++++++----
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 202fb11..9910aea 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -314,7 +314,10 @@ def generate_fragment(
             keywords=[],
             type_params=[],
             body=merge_body_sequences(
-                mother_class_fields if mother_class_fields else [ast.Pass()]
+                mother_class_fields if mother_class_fields else [ast.Pass()],
+                generate_pydantic_config(
+                    GraphQLTypes.FRAGMENT, config, registry, type.name
+                ),
             ),
         )
 
@@ -382,6 +385,9 @@ def generate_fragment(
                         generate_typename_field(i.name, registry, config),
                     ],
                     inline_fields,
+                    generate_pydantic_config(
+                        GraphQLTypes.FRAGMENT, config, registry, i.name
+                    ),
                 ),
             )
 
@@ -497,7 +503,9 @@ def generate_fragment(
                 type_params=[],
                 body=merge_body_sequences(
                     fields,
-                    generate_pydantic_config(GraphQLTypes.FRAGMENT, config, registry),
+                    generate_pydantic_config(
+                        GraphQLTypes.FRAGMENT, config, registry, type.name
+                    ),
                     meta_body,
                 ),
             )
@@ -610,7 +618,11 @@ def generate_fragment(
                 keywords=[],
                 type_params=[],
                 body=merge_body_sequences(
-                    [generate_typename_field(i.name, registry, config)], inline_fields
+                    [generate_typename_field(i.name, registry, config)],
+                    inline_fields,
+                    generate_pydantic_config(
+                        GraphQLTypes.FRAGMENT, config, registry, i.name
+                    ),
                 ),
             )
 
diff --git a/turms/recurse.py b/turms/recurse.py
index 027d9eb..fae880b 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -220,7 +220,10 @@ def recurse_annotation(
                 merged_body = merge_body_sequences(
                     this_inline_fragment_fields,
                     generate_pydantic_config(
-                        GraphQLTypes.FRAGMENT, config, registry
+                        GraphQLTypes.FRAGMENT,
+                        config,
+                        registry,
+                        sub_node.type_condition.name.value,
                     ),
                 )
                 if not merged_body:
@@ -398,7 +401,10 @@ def recurse_annotation(
             keywords=[],
             type_params=[],
             body=merge_body_sequences(
-                body, generate_pydantic_config(GraphQLTypes.FRAGMENT, config, registry)
+                body,
+                generate_pydantic_config(
+                    GraphQLTypes.FRAGMENT, config, registry, type.name
+                ),
             ),
         )
         subtree.append(mother_class)
@@ -444,6 +450,9 @@ def recurse_annotation(
                         generate_typename_field(i.name, registry, config),
                     ],
                     inline_fields,
+                    generate_pydantic_config(
+                        GraphQLTypes.FRAGMENT, config, registry, i.name
+                    ),
                 ),
             )
 
@@ -643,7 +652,10 @@ def recurse_annotation(
             keywords=[],
             type_params=[],
             body=merge_body_sequences(
-                body, generate_pydantic_config(GraphQLTypes.OBJECT, config, registry)
+                body,
+                generate_pydantic_config(
+                    GraphQLTypes.OBJECT, config, registry, type.name
+                ),
             ),
         )
 
@@ -701,7 +713,7 @@ def recurse_annotation(
         )
 
     if isinstance(type, GraphQLList):
-        if config.freeze.enabled:
+        if config.freeze.enabled and config.freeze.convert_list_to_tuple:
             registry.register_import("typing.Tuple")
 
             def list_builder(x: ast.Name | ast.Subscript | ast.Constant):
-- 
2.43.0


From 9323ec3e5fcd2c20e831cc837bd095275299de69 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 00:32:14 +0000
Subject: [PATCH 44/74] fix: order and name interfaces in object models

---
 turms/plugins/objects.py | 37 +++++++++++++++++++++++++------------
 turms/utils.py           | 20 +++++++++++++++++++-
 2 files changed, 44 insertions(+), 13 deletions(-)

diff --git a/turms/plugins/objects.py b/turms/plugins/objects.py
index 957a460..49ddc25 100644
--- a/turms/plugins/objects.py
+++ b/turms/plugins/objects.py
@@ -27,6 +27,8 @@ from turms.utils import (
     generate_pydantic_config,
     get_additional_bases_for_type,
     interface_is_extended_by_other_interfaces,
+    sort_interfaces_first,
+    sort_most_specific_first,
 )
 from turms.config import GraphQLTypes
 
@@ -224,18 +226,14 @@ def generate_types(
         or isinstance(value, GraphQLInterfaceType)
     }
 
-    sorted_objects = {
-        k: v
-        for k, v in sorted(
-            objects.items(),
-            key=lambda item: isinstance(item[1], GraphQLInterfaceType),
-            reverse=True,
-        )
-    }
+    sorted_objects = sort_interfaces_first(objects)
 
     interface_map: Dict[str, List[str]] = (
         {}
     )  # A list of interfaces with the union classes attached
+    interface_only_map: Dict[str, List[str]] = (
+        {}
+    )  # A list of interfaces with the interfaces implementing them
     interface_base_map: Dict[str, str] = (
         {}
     )  # A list of interfaces with its respective base
@@ -261,9 +259,12 @@ def generate_types(
             classname = registry.generate_interface(key)
             interface_base_map[key] = classname
 
-        for interface in object_type.interfaces:
+        for interface in sort_most_specific_first(object_type.interfaces):
             # Populate the Union_classed
-            interface_map.setdefault(interface.name, []).append(classname)
+            if isinstance(object_type, GraphQLObjectType):
+                interface_map.setdefault(interface.name, []).append(classname)
+            else:
+                interface_only_map.setdefault(interface.name, []).append(classname)
 
             other_interfaces = set(object_type.interfaces) - {interface}
             if not interface_is_extended_by_other_interfaces(
@@ -374,11 +375,18 @@ def generate_types(
             )
         )
 
+    # only interfaces that no object implements are left to their subinterfaces
+    interface_map = {**interface_only_map, **interface_map}
+
     for interface, union_class_names in interface_map.items():
         registry.register_import("typing.Union")
         tree.append(
             ast.Assign(
-                targets=[ast.Name(id=interface, ctx=ast.Store())],
+                targets=[
+                    ast.Name(
+                        id=registry.style_interface_class(interface), ctx=ast.Store()
+                    )
+                ],
                 value=ast.Subscript(
                     value=ast.Name("Union", ctx=ast.Load()),
                     slice=ast.Tuple(
@@ -408,7 +416,12 @@ def generate_types(
             registry.warn(f"Interface {interface} has no types implementing it")
             tree.append(
                 ast.Assign(
-                    targets=[ast.Name(id=interface, ctx=ast.Store())],
+                    targets=[
+                        ast.Name(
+                            id=registry.style_interface_class(interface),
+                            ctx=ast.Store(),
+                        )
+                    ],
                     value=ast.Name(baseclass, ctx=ast.Load()),
                 )
             )
diff --git a/turms/utils.py b/turms/utils.py
index 6beecd1..7f8992a 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -1,7 +1,7 @@
 import ast
 import glob
 import re
-from typing import Any, Dict, List, Optional, Sequence, Set, Union
+from typing import Any, Dict, List, Optional, Sequence, Set, Tuple, Union
 
 from graphql import (
     BooleanValueNode,
@@ -633,6 +633,24 @@ def interface_is_extended_by_other_interfaces(
     return interface in interfaces_implemented_by_other_interfaces
 
 
+def sort_interfaces_first(types: Dict[str, Any]) -> Dict[str, Any]:
+    """Sorts types so that every interface comes before the types that implement it"""
+
+    def position(item: Tuple[str, Any]) -> Tuple[bool, int]:
+        # an interface declares all interfaces that it implements transitively
+        is_interface = isinstance(item[1], GraphQLInterfaceType)
+        return not is_interface, len(item[1].interfaces) if is_interface else 0
+
+    return dict(sorted(types.items(), key=position))
+
+
+def sort_most_specific_first(
+    interfaces: Sequence[GraphQLInterfaceType],
+) -> List[GraphQLInterfaceType]:
+    """Sorts interfaces in an order that is the same wherever they are inherited together"""
+    return sorted(interfaces, key=lambda i: (-len(i.interfaces), i.name))
+
+
 def recurse_type_annotation(
     type: TypeNode,
     registry: ClassRegistry,
-- 
2.43.0


From 6eedc9ccb7c38fcd822994df764f3f8abd2d6af5 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 00:37:36 +0000
Subject: [PATCH 45/74] fix: keep model fields from shadowing the types of
 later fields

---
 turms/registry.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/turms/registry.py b/turms/registry.py
index 870927b..77d17a6 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -226,6 +226,23 @@ def to_model_field_name(name: str) -> str:
     return name
 
 
+# names that the annotations and values of model fields are built from
+FIELD_ANNOTATION_NAMES = {
+    "AfterValidator",
+    "Annotated",
+    "Any",
+    "Deprecated",
+    "Field",
+    "GraphQLDefault",
+    "List",
+    "Literal",
+    "Optional",
+    "Tuple",
+    "Union",
+    "WrapSerializer",
+}
+
+
 def shadows_model_attribute(field_name: str) -> bool:
     """Whether pydantic would take its own attribute of this name (``schema``, ``json``,
     ``copy``, ...) for the default of a field that is declared without a value."""
@@ -252,6 +269,10 @@ class ClassRegistry(object):
             **SCALAR_DEFAULTS,
             **config.scalar_definitions,
         }
+        # names that would mean the field itself to the fields declared after it
+        self.field_annotation_names: Set[str] = FIELD_ANNOTATION_NAMES | {
+            python_type.split(".")[-1] for python_type in self.scalar_map.values()
+        }
         # map of fragment typename to the strinigify graphql document
         self.fragment_document_map: Dict[str, str] = {}
 
@@ -552,7 +573,11 @@ class ClassRegistry(object):
         return self.fragment_class_map[typename]
 
     def generate_node_name(self, node_name: str):
-        return to_model_field_name(self.style_node_name(node_name))
+        return self.to_field_name(self.style_node_name(node_name))
+
+    def to_field_name(self, name: str):
+        name = to_model_field_name(name)
+        return name + "_" if name in self.field_annotation_names else name
 
     def style_node_name(self, node_name: str):
         for styler in self.stylers:
@@ -564,7 +589,7 @@ class ClassRegistry(object):
         return node_name
 
     def generate_parameter_name(self, node_name: str):
-        return to_model_field_name(self.style_parameter_name(node_name))
+        return self.to_field_name(self.style_parameter_name(node_name))
 
     def style_parameter_name(self, node_name: str):
         for styler in self.stylers:
-- 
2.43.0


From c86347603ed9987b3864d9aa772b1e6881986903 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 01:09:21 +0000
Subject: [PATCH 46/74] fix: reproduce the source schema in strawberry schemas

Names, descriptions, deprecations, defaults, union names, directives and
renamed root types of the source schema got lost or changed.
---
 turms/plugins/strawberry.py | 582 +++++++++++++++++++++++++-----------
 1 file changed, 407 insertions(+), 175 deletions(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 73f3190..9937aff 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -3,6 +3,7 @@ from graphql import (
     ConstListValueNode,
     ConstObjectValueNode,
     ConstValueNode,
+    DirectiveLocation,
     EnumValueNode,
     FloatValueNode,
     GraphQLField,
@@ -21,12 +22,15 @@ from graphql import (
     StringValueNode,
     Undefined,
     GraphQLArgument,
+    is_required_argument,
     ObjectTypeDefinitionNode,
 )
 from pydantic_settings import SettingsConfigDict
 
 from turms.plugins.base import Plugin, PluginConfig
+from turms.plugins.enums import generate_member_name
 import ast
+from keyword import iskeyword
 from typing import Dict, List, Protocol, runtime_checkable
 from turms.config import GeneratorConfig, ImportableFunctionMixin
 from graphql.utilities.build_client_schema import GraphQLSchema
@@ -36,15 +40,33 @@ from graphql.type.definition import (
 )
 from turms.registry import ClassRegistry
 from turms.utils import (
+    compose_field_documentation,
     convert_default_value_to_ast,
     generate_pydantic_config,
     get_additional_bases_for_type,
     interface_is_extended_by_other_interfaces,
     is_oneof_input_type,
+    sort_interfaces_first,
+    sort_most_specific_first,
 )
 from turms.config import GraphQLTypes
 
 
+SCHEMA_LOCATIONS = {
+    DirectiveLocation.SCHEMA,
+    DirectiveLocation.SCALAR,
+    DirectiveLocation.OBJECT,
+    DirectiveLocation.FIELD_DEFINITION,
+    DirectiveLocation.ARGUMENT_DEFINITION,
+    DirectiveLocation.INTERFACE,
+    DirectiveLocation.UNION,
+    DirectiveLocation.ENUM,
+    DirectiveLocation.ENUM_VALUE,
+    DirectiveLocation.INPUT_OBJECT,
+    DirectiveLocation.INPUT_FIELD_DEFINITION,
+}
+
+
 @runtime_checkable
 class StrawberryGenerateFunc(ImportableFunctionMixin, Protocol):
     def __call__(
@@ -114,20 +136,120 @@ def build_directive_type_annotation(value: GraphQLType, registry: ClassRegistry,
 
 
 
+def to_camel_case(name: str) -> str:
+    """The name that strawberry gives to a python name"""
+    first, *others = name.split("_")
+    return first + "".join(part.capitalize() if part else "_" for part in others)
+
+
+def generate_name_keywords(python_name: str, graphql_name: str) -> List[ast.keyword]:
+    """Keeps the name of the schema where strawberry would derive another one"""
+    if python_name == to_camel_case(python_name) == graphql_name:
+        return []
+    return [ast.keyword(arg="name", value=ast.Constant(value=graphql_name))]
+
+
+def generate_description_keywords(
+    type: GraphQLType,
+) -> List[ast.keyword]:
+    if not type.description:
+        return []
+    return [
+        ast.keyword(arg="description", value=ast.Constant(value=type.description))
+    ]
+
+
+def generate_deprecation_keywords(value: GraphQLField) -> List[ast.keyword]:
+    if value.deprecation_reason is None:
+        return []
+    return [
+        ast.keyword(
+            arg="deprecation_reason",
+            value=ast.Constant(value=value.deprecation_reason),
+        )
+    ]
+
+
+def generate_field_name(
+    graphql_name: str, client_schema: GraphQLSchema, registry: ClassRegistry
+) -> str:
+    """The python name of a field, which must not shadow what other fields refer to"""
+    name = registry.generate_node_name(graphql_name)
+    referenced = {"strawberry", "AsyncGenerator"}
+    referenced.update(
+        generate_directive_class(directive.name)
+        for directive in client_schema.directives
+    )
+    for key, type in client_schema.type_map.items():
+        if isinstance(type, GraphQLEnumType):
+            referenced.add(registry.style_enum_class(key))
+        elif isinstance(type, GraphQLInputObjectType):
+            referenced.add(registry.style_inputtype_class(key))
+        elif isinstance(type, GraphQLInterfaceType):
+            referenced.add(registry.style_interface_class(key))
+        elif isinstance(type, GraphQLObjectType):
+            referenced.add(registry.style_objecttype_class(key))
+        elif isinstance(type, GraphQLScalarType):
+            referenced.add(key)
+    return name + "_" if name in referenced else name
+
+
+def generate_argument_name(graphql_name: str, registry: ClassRegistry) -> str:
+    """The python name of an argument, strawberry reserves some for itself"""
+    name = registry.generate_parameter_name(graphql_name)
+    return name + "_" if name in ("self", "cls", "root", "info") else name
+
+
+def convert_typed_default_to_ast(
+    value, type: GraphQLType, registry: ClassRegistry
+) -> ast.expr:
+    """Converts the default of an argument or input field, enum values become members"""
+    if isinstance(type, GraphQLNonNull):
+        return convert_typed_default_to_ast(value, type.of_type, registry)
+    if value is None:
+        return ast.Constant(value=None)
+    if isinstance(type, GraphQLList):
+        return ast.List(
+            elts=[
+                convert_typed_default_to_ast(item, type.of_type, registry)
+                for item in value
+            ],
+            ctx=ast.Load(),
+        )
+    if isinstance(type, GraphQLInputObjectType):
+        return ast.Dict(
+            keys=[ast.Constant(value=key) for key in value],
+            values=[
+                convert_typed_default_to_ast(item, type.fields[key].type, registry)
+                for key, item in value.items()
+            ],
+        )
+    if isinstance(type, GraphQLEnumType):
+        (member,) = [
+            key for key, member in type.values.items() if member.value == value
+        ]
+        return ast.Attribute(
+            value=ast.Name(id=registry.style_enum_class(type.name), ctx=ast.Load()),
+            attr=generate_member_name(member, type.values),
+            ctx=ast.Load(),
+        )
+    return convert_default_value_to_ast(value)
+
+
 def convert_valuenode_to_ast(value: ConstValueNode):
     if isinstance(value, NullValueNode):
         return ast.Constant(value=None)
     if isinstance(value, StringValueNode):
         return ast.Constant(value=value.value)
     if isinstance(value, IntValueNode):
-        return ast.Constant(value=value.value)
+        return ast.Constant(value=int(value.value))
     if isinstance(value, FloatValueNode):
-        return ast.Constant(value=value.value)
+        return ast.Constant(value=float(value.value))
     if isinstance(value, BooleanValueNode):
         return ast.Constant(value=value.value)
 
     if isinstance(value, EnumValueNode):
-        return ast.Constant(value=value)
+        return ast.Constant(value=value.value)
     if isinstance(value, ListValueNode):
         return ast.List(elts=[convert_valuenode_to_ast(x) for x in value.values], ctx=ast.Load())
     if isinstance(value, ObjectValueNode):
@@ -136,7 +258,7 @@ def convert_valuenode_to_ast(value: ConstValueNode):
         values = []
 
         for field in value.fields:
-            keys.append(field.name.value)
+            keys.append(ast.Constant(value=field.name.value))
             values.append(convert_valuenode_to_ast(field.value))
 
         return ast.Dict(
@@ -152,6 +274,41 @@ def convert_valuenode_to_ast(value: ConstValueNode):
 
 
 
+def generate_default_keywords(
+    value: GraphQLArgument, registry: ClassRegistry
+) -> List[ast.keyword]:
+    """The default of a dataclass field, mutable ones need a factory"""
+    if value.default_value is Undefined:
+        return []
+    default = convert_typed_default_to_ast(value.default_value, value.type, registry)
+    if isinstance(default, (ast.List, ast.Dict)):
+        return [
+            ast.keyword(
+                arg="default_factory",
+                value=ast.Lambda(
+                    args=ast.arguments(
+                        posonlyargs=[],
+                        args=[],
+                        kwonlyargs=[],
+                        kw_defaults=[],
+                        defaults=[],
+                    ),
+                    body=default,
+                ),
+            )
+        ]
+    return [ast.keyword(arg="default", value=default)]
+
+
+def is_schema_location(location: DirectiveLocation) -> bool:
+    """Whether a directive can be applied to the schema there, not just to documents"""
+    return location in SCHEMA_LOCATIONS
+
+
+def generate_directive_class(name: str) -> str:
+    return name + "_" if iskeyword(name) else name
+
+
 def default_generate_directives(
     client_schema: GraphQLSchema,
     config: GeneratorConfig,
@@ -166,6 +323,7 @@ def default_generate_directives(
         directive
         for directive in directives
         if directive.name not in plugin_config.builtin_directives
+        and any(is_schema_location(location) for location in directive.locations)
     ]
 
     if not generatable_directives:
@@ -194,64 +352,50 @@ def default_generate_directives(
                             ctx=ast.Load(),
                         )
                         for location in directive.locations
+                        if is_schema_location(location)
                     ],
                     ctx=ast.Load(),
                 ),
             )
         )
 
+        directive_class = generate_directive_class(directive.name)
+        keywords += generate_name_keywords(directive_class, directive.name)
+        if directive.is_repeatable:
+            keywords.append(
+                ast.keyword(arg="repeatable", value=ast.Constant(value=True))
+            )
+        keywords += generate_description_keywords(directive)
+
         for value_key, value in directive.args.items():
             value: GraphQLArgument
 
             type = value.type
 
-            if value.default_value is not None:
-                default = convert_default_value_to_ast(value.default_value)
-            else:
-                default = None
-
-            needs_factory = False
-            if isinstance(default, ast.List):
-                needs_factory = True
-            if isinstance(default, ast.Dict):
-                needs_factory = True
-
-
-            field_value = None
-
-            if default:
-                if needs_factory:
-                    field_value = ast.Call(
-                        func=ast.Name(id="strawberry.field", ctx=ast.Load()),
-                        keywords=[
-                            ast.keyword(
-                                arg="default_factory",
-                                value=ast.Lambda(
-                                    args=[], body=default
-                                ),
-                            ),
-                        ],
-                        args=[],
+            argument_name = registry.generate_node_name(value_key)
+            field_keywords = generate_name_keywords(argument_name, value_key)
+            field_keywords += generate_description_keywords(value)
+            field_keywords += generate_deprecation_keywords(value)
+            field_keywords += generate_default_keywords(value, registry)
+            if not is_required_argument(value) and value.default_value is Undefined:
+                field_keywords.append(
+                    ast.keyword(
+                        arg="default", value=ast.Name("strawberry.UNSET", ctx=ast.Load())
                     )
-                else:
-                    field_value = ast.Call(
+                )
+
+            assign = ast.AnnAssign(
+                target=ast.Name(id=argument_name, ctx=ast.Store()),
+                annotation=build_directive_type_annotation(type, registry),
+                value=(
+                    ast.Call(
                         func=ast.Name(id="strawberry.field", ctx=ast.Load()),
-                        keywords=[
-                            ast.keyword(
-                                arg="default",
-                                value=default,
-                            ),
-                        ],
+                        keywords=field_keywords,
                         args=[],
                     )
-
-
-            assign = ast.AnnAssign(
-                target=ast.Name(
-                    id=registry.style_node_name(value_key), ctx=ast.Store()
+                    if field_keywords
+                    else None
                 ),
-                annotation=build_directive_type_annotation(type, registry),
-                value=field_value,
                 simple=1,
             )
 
@@ -268,7 +412,7 @@ def default_generate_directives(
 
         tree.append(
             ast.ClassDef(
-                name=directive.name,
+                name=directive_class,
                 bases=[],
                 decorator_list=[decorator],
                 keywords=[],
@@ -297,16 +441,6 @@ def default_generate_enums(
     }
 
     for key, type in enum_types.items():
-        directive_keywords = generate_directive_keywords(type.ast_node, plugin_config)
-        if directive_keywords:
-            decorator = ast.Call(
-                func=ast.Name(id="strawberry.enum", ctx=ast.Load()),
-                keywords=directive_keywords,
-                args=[],
-            )
-        else:
-            decorator = ast.Name(id="strawberry.enum", ctx=ast.Load())
-
         if plugin_config.skip_underscore and key.startswith("_"):
             continue
 
@@ -315,6 +449,20 @@ def default_generate_enums(
 
         classname = registry.generate_enum(key)
 
+        decorator_keywords = (
+            generate_name_keywords(classname, key)
+            + generate_description_keywords(type)
+            + generate_directive_keywords(type.ast_node, plugin_config, registry)
+        )
+        if decorator_keywords:
+            decorator = ast.Call(
+                func=ast.Name(id="strawberry.enum", ctx=ast.Load()),
+                keywords=decorator_keywords,
+                args=[],
+            )
+        else:
+            decorator = ast.Name(id="strawberry.enum", ctx=ast.Load())
+
         fields = (
             [ast.Expr(value=ast.Constant(value=type.description))]
             if type.description
@@ -327,15 +475,34 @@ def default_generate_enums(
             else:
                 servalue = value.value.value
 
+            member_name = generate_member_name(value_key, type.values)
+            keywords = (
+                [ast.keyword(arg="name", value=ast.Constant(value=value_key))]
+                if member_name != value_key
+                else []
+            )
+            keywords += generate_description_keywords(value)
+            keywords += generate_deprecation_keywords(value)
+            keywords += generate_directive_keywords(
+                value.ast_node, plugin_config, registry
+            )
+
             assign = ast.Assign(
-                targets=[ast.Name(id=str(value_key), ctx=ast.Store())],
-                value=ast.Constant(value=servalue),
+                targets=[ast.Name(id=member_name, ctx=ast.Store())],
+                value=(
+                    ast.Call(
+                        func=ast.Name(id="strawberry.enum_value", ctx=ast.Load()),
+                        keywords=keywords,
+                        args=[ast.Constant(value=servalue)],
+                    )
+                    if keywords
+                    else ast.Constant(value=servalue)
+                ),
             )
 
-            potential_comment = (
-                value.description
-                if not value.deprecation_reason
-                else f"DEPRECATED: {value.description}"
+            potential_comment = compose_field_documentation(
+                description=value.description,
+                deprecation_reason=value.deprecation_reason,
             )
 
             if potential_comment:
@@ -390,6 +557,34 @@ class StrawberryPluginConfig(PluginConfig):
     generate_enums_func: StrawberryGenerateFunc = default_generate_enums
 
 
+def generate_union_annotation(
+    members: ast.expr,
+    union: GraphQLUnionType,
+    plugin_config: StrawberryPluginConfig,
+    registry: ClassRegistry,
+) -> ast.expr:
+    """Annotates the members of a union with its name"""
+    registry.register_import("typing.Annotated")
+    return ast.Subscript(
+        value=ast.Name("Annotated", ctx=ast.Load()),
+        slice=ast.Tuple(
+            elts=[
+                members,
+                ast.Call(
+                    func=ast.Name(id="strawberry.union", ctx=ast.Load()),
+                    keywords=generate_description_keywords(union)
+                    + generate_directive_keywords(
+                        union.ast_node, plugin_config, registry
+                    ),
+                    args=[ast.Constant(value=union.name)],
+                ),
+            ],
+            ctx=ast.Load(),
+        ),
+        ctx=ast.Load(),
+    )
+
+
 def generate_object_field_annotation(
     graphql_type: GraphQLType,
     parent: str,
@@ -436,44 +631,55 @@ def generate_object_field_annotation(
             registry.register_import("typing.Union")
             return ast.Subscript(
                 value=ast.Name("Optional", ctx=ast.Load()),
-                slice=ast.Subscript(
-                    value=ast.Name("Union", ctx=ast.Load()),
-                    slice=ast.Tuple(
-                        elts=[
-                            generate_object_field_annotation(
-                                union_type,
-                                parent,
-                                config,
-                                plugin_config,
-                                registry,
-                                is_optional=False,
-                            )
-                            for union_type in graphql_type.types
-                        ],
+                slice=generate_union_annotation(
+                    ast.Subscript(
+                        value=ast.Name("Union", ctx=ast.Load()),
+                        slice=ast.Tuple(
+                            elts=[
+                                generate_object_field_annotation(
+                                    union_type,
+                                    parent,
+                                    config,
+                                    plugin_config,
+                                    registry,
+                                    is_optional=False,
+                                )
+                                for union_type in graphql_type.types
+                            ],
+                            ctx=ast.Load(),
+                        ),
                         ctx=ast.Load(),
                     ),
+                    graphql_type,
+                    plugin_config,
+                    registry,
                 ),
                 ctx=ast.Load(),
             )
         registry.register_import("typing.Union")
 
-        return ast.Subscript(
-            value=ast.Name("Union", ctx=ast.Load()),
-            slice=ast.Tuple(
-                elts=[
-                    generate_object_field_annotation(
-                        union_type,
-                        parent,
-                        config,
-                        plugin_config,
-                        registry,
-                        is_optional=False,
-                    )
-                    for union_type in graphql_type.types
-                ],
+        return generate_union_annotation(
+            ast.Subscript(
+                value=ast.Name("Union", ctx=ast.Load()),
+                slice=ast.Tuple(
+                    elts=[
+                        generate_object_field_annotation(
+                            union_type,
+                            parent,
+                            config,
+                            plugin_config,
+                            registry,
+                            is_optional=False,
+                        )
+                        for union_type in graphql_type.types
+                    ],
+                    ctx=ast.Load(),
+                ),
                 ctx=ast.Load(),
             ),
-            ctx=ast.Load(),
+            graphql_type,
+            plugin_config,
+            registry,
         )
 
     if isinstance(graphql_type, GraphQLEnumType):
@@ -686,7 +892,9 @@ def recurse_argument_annotation(
 
 
 def generate_directive_keywords(
-    ast_node: ObjectTypeDefinitionNode, plugin_config: StrawberryPluginConfig
+    ast_node: ObjectTypeDefinitionNode,
+    plugin_config: StrawberryPluginConfig,
+    registry: ClassRegistry,
 ):
     if not ast_node:
         return []
@@ -701,11 +909,14 @@ def generate_directive_keywords(
         calls = [
             ast.Call(
                 func=ast.Name(
-                    id=directive.name.value,
+                    id=generate_directive_class(directive.name.value),
                     ctx=ast.Load(),
                 ),
                 keywords=[
-                    ast.keyword(arg=arg.name.value, value=convert_valuenode_to_ast(arg.value))
+                    ast.keyword(
+                        arg=registry.generate_node_name(arg.name.value),
+                        value=convert_valuenode_to_ast(arg.value),
+                    )
                     for arg in directive.arguments
                 ],
                 args=[],
@@ -741,7 +952,12 @@ def generate_inputs(
         if plugin_config.skip_underscore and key.startswith("_"):  # pragma: no cover
             continue
 
-        decorator_keywords = generate_directive_keywords(type.ast_node, plugin_config)
+        name = registry.generate_inputtype(key)
+        decorator_keywords = (
+            generate_name_keywords(name, key)
+            + generate_description_keywords(type)
+            + generate_directive_keywords(type.ast_node, plugin_config, registry)
+        )
         if is_oneof_input_type(type):
             decorator_keywords.append(
                 ast.keyword(arg="one_of", value=ast.Constant(value=True))
@@ -756,7 +972,6 @@ def generate_inputs(
             decorator = ast.Name(id="strawberry.input", ctx=ast.Load())
 
         additional_bases = get_additional_bases_for_type(type.name, config, registry)
-        name = registry.generate_inputtype(key)
         fields = (
             [ast.Expr(value=ast.Constant(value=type.description))]
             if type.description
@@ -766,22 +981,15 @@ def generate_inputs(
         for value_key, value in type.fields.items():
             value: GraphQLField
 
-            keywords = []
-            if value.description:
-                keywords.append(
-                    ast.keyword(
-                        arg="description",
-                        value=ast.Constant(value=value.description),
-                    )
-                )
+            field_name = generate_field_name(value_key, client_schema, registry)
 
-            if value.deprecation_reason:
-                keywords.append(
-                    ast.keyword(
-                        arg="deprecation_reason",
-                        value=ast.Constant(value=value.deprecation_reason),
-                    )
-                )
+            keywords = (
+                generate_name_keywords(field_name, value_key)
+                + generate_description_keywords(value)
+                + generate_deprecation_keywords(value)
+                + generate_default_keywords(value, registry)
+                + generate_directive_keywords(value.ast_node, plugin_config, registry)
+            )
 
             if keywords:
                 assign_value = ast.Call(
@@ -796,9 +1004,7 @@ def generate_inputs(
                 assign_value = None
 
             assign = ast.AnnAssign(
-                target=ast.Name(
-                    registry.style_node_name(value_key), ctx=ast.Store()
-                ),
+                target=ast.Name(field_name, ctx=ast.Store()),
                 annotation=recurse_argument_annotation(
                     value.type,
                     name,
@@ -849,14 +1055,12 @@ def generate_types(
         or isinstance(value, GraphQLInterfaceType)
     }
 
-    sorted_objects = {
-        k: v
-        for k, v in sorted(
-            objects.items(),
-            key=lambda item: isinstance(item[1], GraphQLInterfaceType),
-            reverse=True,
-        )
-    }
+    sorted_objects = sort_interfaces_first(objects)
+    root_types = (
+        client_schema.query_type,
+        client_schema.mutation_type,
+        client_schema.subscription_type,
+    )
     registry.register_import("strawberry")
 
     interface_map: Dict[str, List[str]] = (
@@ -877,10 +1081,6 @@ def generate_types(
         if plugin_config.skip_double_underscore and key.startswith("__"):
             continue
 
-        directive_keywords = generate_directive_keywords(
-            object_type.ast_node, plugin_config
-        )
-
         if isinstance(object_type, GraphQLObjectType):
             classname = registry.generate_objecttype(key)
             decorator_name = "strawberry.type"
@@ -889,16 +1089,23 @@ def generate_types(
             decorator_name = "strawberry.interface"
             interface_base_map[key] = classname
 
-        if directive_keywords:
+        decorator_keywords = (
+            generate_name_keywords(classname, key)
+            + generate_description_keywords(object_type)
+            + generate_directive_keywords(
+                object_type.ast_node, plugin_config, registry
+            )
+        )
+        if decorator_keywords:
             decorator = ast.Call(
                 func=ast.Name(id=decorator_name, ctx=ast.Load()),
-                keywords=directive_keywords,
+                keywords=decorator_keywords,
                 args=[],
             )
         else:
             decorator = ast.Name(id=decorator_name, ctx=ast.Load())
 
-        for interface in object_type.interfaces:
+        for interface in sort_most_specific_first(object_type.interfaces):
             # Populate the Union_classed
             interface_map.setdefault(interface.name, []).append(classname)
 
@@ -922,23 +1129,13 @@ def generate_types(
         for value_key, value in object_type.fields.items():
             value: GraphQLField
 
-            keywords = []
-
-            if value.description:
-                keywords.append(
-                    ast.keyword(
-                        arg="description",
-                        value=ast.Constant(value=value.description),
-                    )
-                )
+            field_name = generate_field_name(value_key, client_schema, registry)
 
-            if value.deprecation_reason:
-                keywords.append(
-                    ast.keyword(
-                        arg="deprecation_reason",
-                        value=ast.Constant(value=value.deprecation_reason),
-                    )
-                )
+            keywords = (
+                generate_name_keywords(field_name, value_key)
+                + generate_description_keywords(value)
+                + generate_deprecation_keywords(value)
+            )
 
             additional_args = []
             kwdefaults = []
@@ -947,28 +1144,59 @@ def generate_types(
                     key: value
                     for key, value in sorted(
                         value.args.items(),
-                        key=lambda item: item[1].default_value == Undefined,
+                        key=lambda item: item[1].default_value is Undefined,
                         reverse=True,
                     )
                 }
 
                 for argkey, arg in sorted_args.items():
-                    additional_args.append(
-                        ast.arg(
-                            arg=registry.style_parameter_name(argkey),
-                            annotation=recurse_argument_annotation(
-                                arg.type,
-                                classname,
-                                config,
-                                plugin_config,
-                                registry=registry,
-                                is_optional=arg.default_value == Undefined,
+                    argument_name = generate_argument_name(argkey, registry)
+                    annotation = recurse_argument_annotation(
+                        arg.type,
+                        classname,
+                        config,
+                        plugin_config,
+                        registry=registry,
+                        is_optional=True,
+                    )
+                    argument_keywords = (
+                        generate_name_keywords(argument_name, argkey)
+                        + generate_description_keywords(arg)
+                        + generate_deprecation_keywords(arg)
+                        + generate_directive_keywords(
+                            arg.ast_node, plugin_config, registry
+                        )
+                    )
+                    if argument_keywords:
+                        registry.register_import("typing.Annotated")
+                        annotation = ast.Subscript(
+                            value=ast.Name("Annotated", ctx=ast.Load()),
+                            slice=ast.Tuple(
+                                elts=[
+                                    annotation,
+                                    ast.Call(
+                                        func=ast.Name(
+                                            id="strawberry.argument", ctx=ast.Load()
+                                        ),
+                                        keywords=argument_keywords,
+                                        args=[],
+                                    ),
+                                ],
+                                ctx=ast.Load(),
                             ),
+                            ctx=ast.Load(),
                         )
+
+                    additional_args.append(
+                        ast.arg(arg=argument_name, annotation=annotation)
                     )
 
-                    if arg.default_value != Undefined:
-                        kwdefaults.append(ast.Constant(value=arg.default_value))
+                    if arg.default_value is not Undefined:
+                        kwdefaults.append(
+                            convert_typed_default_to_ast(
+                                arg.default_value, arg.type, registry
+                            )
+                        )
 
             body = []
 
@@ -986,9 +1214,11 @@ def generate_types(
                 is_optional=True,
             )
 
-            keywords += generate_directive_keywords(value.ast_node, plugin_config)
+            keywords += generate_directive_keywords(
+                value.ast_node, plugin_config, registry
+            )
 
-            if not additional_args and key not in ["Mutation", "Subscription", "Query"]:
+            if not additional_args and object_type not in root_types:
                 if not keywords:
                     assign_value = None
                 else:
@@ -1003,20 +1233,18 @@ def generate_types(
 
                 # lets create a simple field
                 assign = ast.AnnAssign(
-                    target=ast.Name(
-                        registry.style_node_name(value_key), ctx=ast.Store()
-                    ),
+                    target=ast.Name(field_name, ctx=ast.Store()),
                     annotation=returns,
                     value=assign_value,
                     simple=1,
                 )
 
             else:
-                if key == "Mutation":
+                if object_type is client_schema.mutation_type:
                     decorator_name = ast.Name(id="strawberry.mutation", ctx=ast.Load())
                     function_def = ast.FunctionDef
                     returns = returns
-                elif key == "Subscription":
+                elif object_type is client_schema.subscription_type:
                     registry.register_import("typing.AsyncGenerator")
                     decorator_name = ast.Name(
                         id="strawberry.subscription", ctx=ast.Load()
@@ -1041,7 +1269,7 @@ def generate_types(
                 )
 
                 assign = function_def(
-                    name=registry.style_node_name(value_key),
+                    name=field_name,
                     returns=returns,
                     args=ast.arguments(
                         args=[ast.arg(arg="self")] + additional_args,
@@ -1089,13 +1317,17 @@ def generate_scalars(
         registry.register_import("typing.NewType")
 
     for key, scalar in objects.items():
-        keywords = []
-        keywords += generate_directive_keywords(scalar.ast_node, plugin_config)
-        if scalar.description:
+        scalar_class = key + "_" if iskeyword(key) else key
+        keywords = generate_name_keywords(scalar_class, key)
+        keywords += generate_directive_keywords(
+            scalar.ast_node, plugin_config, registry
+        )
+        keywords += generate_description_keywords(scalar)
+        if scalar.specified_by_url:
             keywords.append(
                 ast.keyword(
-                    arg="description",
-                    value=ast.Constant(value=scalar.description),
+                    arg="specified_by_url",
+                    value=ast.Constant(value=scalar.specified_by_url),
                 )
             )
 
@@ -1129,7 +1361,7 @@ def generate_scalars(
 
         tree.append(
             ast.Assign(
-                targets=[ast.Name(id=key, ctx=ast.Store())],
+                targets=[ast.Name(id=scalar_class, ctx=ast.Store())],
                 value=ast.Call(
                     func=ast.Name(
                         id="strawberry.scalar",
@@ -1149,7 +1381,7 @@ def generate_scalars(
                 ),
             )
         )
-        registry.register_scalar(key, key)
+        registry.register_scalar(key, scalar_class)
 
     return tree
 
@@ -1186,7 +1418,7 @@ class StrawberryPlugin(Plugin):
 
         scalars = (
             generate_scalars(client_schema, config, self.config, registry)
-            if self.config.generate_directives
+            if self.config.generate_scalars
             else []
         )
 
-- 
2.43.0


From 158b451ee67647891b19584ed45068b41b6cfe1a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:06:56 +0000
Subject: [PATCH 47/74] fix: polyfill Annotated for python 3.7 and 3.8

---
 turms/parsers/polyfill.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/turms/parsers/polyfill.py b/turms/parsers/polyfill.py
index 20d2712..e894ea0 100644
--- a/turms/parsers/polyfill.py
+++ b/turms/parsers/polyfill.py
@@ -22,22 +22,30 @@ class PolyfillPluginConfig(ParserConfig):
         return value
 
 
-def polyfill_python_seven(
+MISSING_TYPING_NAMES = {
+    "3.7": {"Literal", "Annotated"},
+    "3.8": {"Annotated"},
+}
+"""What the generated code imports from typing, but older versions don't have there"""
+
+
+def polyfill_typing(
     asts: List[ast.AST], config: PolyfillPluginConfig
 ) -> List[ast.AST]:
+    missing_names = MISSING_TYPING_NAMES[config.python_version]
     new_nodes: list[ast.AST] = []
     for node in asts:
         if isinstance(node, ast.ImportFrom):
             if node.module == "typing":
                 # okay imports
                 need_extensions = [
-                    alias for alias in node.names if alias.name in {"Literal"}
+                    alias for alias in node.names if alias.name in missing_names
                 ]
-                if need_extensions:
+                for alias in need_extensions:
                     new_nodes.append(
                         ast.ImportFrom(
                             module="typing_extensions",
-                            names=need_extensions,
+                            names=[alias],
                             level=0,
                         )
                     )
@@ -74,7 +82,7 @@ class PolyfillParser(Parser):
         self,
         asts: List[ast.AST],
     ) -> List[ast.AST]:
-        if self.config.python_version == "3.7":
-            return polyfill_python_seven(asts, self.config)
+        if self.config.python_version in MISSING_TYPING_NAMES:
+            return polyfill_typing(asts, self.config)
 
         return asts  # pragma: no cover
-- 
2.43.0


From 015ab97c62f14b1f3857f8636c46e5e59e619814 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:06:56 +0000
Subject: [PATCH 48/74] fix: use the output of formatters verbatim and tolerate
 unfixable lints

---
 turms/processors/command.py |  7 +++----
 turms/processors/ruff.py    | 16 +++++++++++-----
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/turms/processors/command.py b/turms/processors/command.py
index 5454d67..5c02549 100644
--- a/turms/processors/command.py
+++ b/turms/processors/command.py
@@ -42,12 +42,11 @@ class CommandProcessor(Processor):
 
         result = subprocess.run(
             command,
-            input=gen_file,
+            input=gen_file.encode("utf-8"),
             capture_output=True,
-            text=True,
         )
         if result.returncode != 0:
             raise RuntimeError(
-                f"Command {' '.join(command)} failed (exit code {result.returncode}):\n{result.stderr}"
+                f"Command {' '.join(command)} failed (exit code {result.returncode}):\n{result.stderr.decode('utf-8', 'replace')}"
             )
-        return result.stdout
+        return result.stdout.decode("utf-8")
diff --git a/turms/processors/ruff.py b/turms/processors/ruff.py
index 37df3f6..7fa7ba5 100644
--- a/turms/processors/ruff.py
+++ b/turms/processors/ruff.py
@@ -29,20 +29,26 @@ class RuffProcessor(Processor):
     def _run_ruff(self, args, gen_file: str) -> str:
         result = subprocess.run(
             [sys.executable, "-m", "ruff", *args, "-"],
-            input=gen_file,
+            input=gen_file.encode("utf-8"),
             capture_output=True,
-            text=True,
         )
         if result.returncode != 0:
             raise RuntimeError(
-                f"ruff {' '.join(args)} failed (exit code {result.returncode}):\n{result.stderr}"
+                f"ruff {' '.join(args)} failed (exit code {result.returncode}):\n{result.stderr.decode('utf-8', 'replace')}"
             )
-        return result.stdout
+        return result.stdout.decode("utf-8")
 
     def run(self, gen_file: str, config: GeneratorConfig):
         if self.config.fix:
             gen_file = self._run_ruff(
-                ["check", "--fix", "--quiet", "--stdin-filename", "generated.py"],
+                [
+                    "check",
+                    "--fix",
+                    "--exit-zero",
+                    "--quiet",
+                    "--stdin-filename",
+                    "generated.py",
+                ],
                 gen_file,
             )
         if self.config.format:
-- 
2.43.0


From 92f88662761dfadeea7dd8365cb92aa527666514 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:12:18 +0000
Subject: [PATCH 49/74] fix: reject unknown settings of CapitalizeStyler and
 honour its flags

---
 turms/stylers/capitalize.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/turms/stylers/capitalize.py b/turms/stylers/capitalize.py
index 85a0c3d..271a9b3 100644
--- a/turms/stylers/capitalize.py
+++ b/turms/stylers/capitalize.py
@@ -1,8 +1,8 @@
-from pydantic import BaseModel, Field
-from turms.stylers.base import BaseStyler
+from pydantic import Field
+from turms.stylers.base import BaseStyler, StylerConfig
 
 
-class CapitalizeSylerConfig(BaseModel):
+class CapitalizeSylerConfig(StylerConfig):
     type: str = "turms.stylers.capitalize.CapitalizerSyler"
     capitalize_fragment: bool = True
     capitalize_query: bool = True
@@ -18,19 +18,31 @@ class CapitalizeStyler(BaseStyler):
     config: CapitalizeSylerConfig = Field(default_factory=CapitalizeSylerConfig)
 
     def style_fragment_name(self, typename):
+        if not self.config.capitalize_fragment:
+            return typename
         return typename[0].upper() + typename[1:]
 
     def style_query_name(self, typename):
+        if not self.config.capitalize_query:
+            return typename
         return typename[0].upper() + typename[1:]
 
     def style_subscription_name(self, typename):
+        if not self.config.capitalize_subscription:
+            return typename
         return typename[0].upper() + typename[1:]
 
     def style_mutation_name(self, typename):
+        if not self.config.capitalize_mutation:
+            return typename
         return typename[0].upper() + typename[1:]
 
     def style_input_name(self, typename):
+        if not self.config.capitalize_input:
+            return typename
         return typename[0].upper() + typename[1:]
 
     def style_enum_name(self, typename):
+        if not self.config.capitalize_enum:
+            return typename
         return typename[0].upper() + typename[1:]
-- 
2.43.0


From 9422b016be748713d9e0706913d8f6f879387aba Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:12:33 +0000
Subject: [PATCH 50/74] fix: read settings from TURMS_ prefixed environment
 variables only

---
 turms/config.py                | 10 ++++++++++
 turms/processors/black.py      |  2 ++
 turms/processors/command.py    |  2 ++
 turms/processors/disclaimer.py |  2 ++
 turms/processors/isort.py      |  2 ++
 turms/processors/merge.py      |  2 ++
 turms/processors/ruff.py       |  2 ++
 turms/stylers/appender.py      |  2 ++
 turms/stylers/capitalize.py    |  2 ++
 turms/stylers/default.py       |  2 ++
 turms/stylers/snake_case.py    |  2 ++
 11 files changed, 30 insertions(+)

diff --git a/turms/config.py b/turms/config.py
index 0082b8a..0aac9d1 100644
--- a/turms/config.py
+++ b/turms/config.py
@@ -109,6 +109,11 @@ class FreezeConfig(BaseSettings):
 
     """
 
+    model_config = SettingsConfigDict(
+        env_prefix="TURMS_FREEZE_",
+        extra="forbid",
+    )
+
     enabled: bool = Field(
         default=False, description="Enabling this, will freeze the schema"
     )
@@ -154,6 +159,11 @@ class OptionsConfig(BaseSettings):
 
     """
 
+    model_config = SettingsConfigDict(
+        env_prefix="TURMS_OPTIONS_",
+        extra="forbid",
+    )
+
     enabled: bool = Field(
         default=False, description="Enabling this, will freeze the schema"
     )
diff --git a/turms/processors/black.py b/turms/processors/black.py
index 6e603c8..4cdcca6 100644
--- a/turms/processors/black.py
+++ b/turms/processors/black.py
@@ -1,9 +1,11 @@
 from pydantic import Field
+from pydantic_settings import SettingsConfigDict
 from turms.processors.base import Processor, ProcessorConfig
 from turms.config import GeneratorConfig
 
 
 class BlackProcessorConfig(ProcessorConfig):
+    model_config = SettingsConfigDict(env_prefix="TURMS_PROCESSORS_BLACK_")
     type: str = "turms.processors.black.BlackProcessor"
 
 
diff --git a/turms/processors/command.py b/turms/processors/command.py
index 5c02549..bc6ec5a 100644
--- a/turms/processors/command.py
+++ b/turms/processors/command.py
@@ -3,11 +3,13 @@ import subprocess
 from typing import List, Union
 
 from pydantic import Field
+from pydantic_settings import SettingsConfigDict
 from turms.processors.base import Processor, ProcessorConfig
 from turms.config import GeneratorConfig
 
 
 class CommandProcessorConfig(ProcessorConfig):
+    model_config = SettingsConfigDict(env_prefix="TURMS_PROCESSORS_COMMAND_")
     type: str = "turms.processors.command.CommandProcessor"
     command: Union[str, List[str]]
     """The command to run. The generated code is piped to the command's stdin and the
diff --git a/turms/processors/disclaimer.py b/turms/processors/disclaimer.py
index 90ad090..e5fd845 100644
--- a/turms/processors/disclaimer.py
+++ b/turms/processors/disclaimer.py
@@ -1,9 +1,11 @@
 from pydantic import Field
+from pydantic_settings import SettingsConfigDict
 from turms.processors.base import Processor, ProcessorConfig
 from turms.config import GeneratorConfig
 
 
 class DisclaimerProcessorConfig(ProcessorConfig):
+    model_config = SettingsConfigDict(env_prefix="TURMS_PROCESSORS_DISCLAIMER_")
     type: str = "turms.processors.black.DisclaimerProcessor"
     disclaimer: str = '''""" This file was code generated by turms. If you want to change the contents of this file, you should make sure to add the MergeProcessor to your config will keep your changes when you re-run turms)."""
     '''
diff --git a/turms/processors/isort.py b/turms/processors/isort.py
index afcb771..9de7115 100644
--- a/turms/processors/isort.py
+++ b/turms/processors/isort.py
@@ -1,9 +1,11 @@
 from pydantic import Field
+from pydantic_settings import SettingsConfigDict
 from turms.processors.base import Processor, ProcessorConfig
 from turms.config import GeneratorConfig
 
 
 class IsortProcessorConfig(ProcessorConfig):
+    model_config = SettingsConfigDict(env_prefix="TURMS_PROCESSORS_ISORT_")
     type: str = "turms.processors.isort.IsortProcessor"
 
 
diff --git a/turms/processors/merge.py b/turms/processors/merge.py
index 2d03a40..bec048b 100644
--- a/turms/processors/merge.py
+++ b/turms/processors/merge.py
@@ -1,4 +1,5 @@
 from pydantic import Field
+from pydantic_settings import SettingsConfigDict
 from turms.processors.base import Processor, ProcessorConfig
 import libcst as cst
 from collections import OrderedDict
@@ -218,6 +219,7 @@ def merge_definitions(generated: cst.CSTNode, existing: cst.CSTNode):
 
 
 class MergeProcessorConfig(ProcessorConfig):
+    model_config = SettingsConfigDict(env_prefix="TURMS_PROCESSORS_MERGE_")
     type: str = "turms.processors.merge.MergeProcessor"
 
 
diff --git a/turms/processors/ruff.py b/turms/processors/ruff.py
index 7fa7ba5..0916f5f 100644
--- a/turms/processors/ruff.py
+++ b/turms/processors/ruff.py
@@ -2,11 +2,13 @@ import subprocess
 import sys
 
 from pydantic import Field
+from pydantic_settings import SettingsConfigDict
 from turms.processors.base import Processor, ProcessorConfig
 from turms.config import GeneratorConfig
 
 
 class RuffProcessorConfig(ProcessorConfig):
+    model_config = SettingsConfigDict(env_prefix="TURMS_PROCESSORS_RUFF_")
     type: str = "turms.processors.ruff.RuffProcessor"
     format: bool = True
     """Whether to run `ruff format` to enforce a consistent style."""
diff --git a/turms/stylers/appender.py b/turms/stylers/appender.py
index d06e6a4..3b3b2d2 100644
--- a/turms/stylers/appender.py
+++ b/turms/stylers/appender.py
@@ -1,8 +1,10 @@
 from pydantic import Field
+from pydantic_settings import SettingsConfigDict
 from turms.stylers.base import BaseStyler, StylerConfig
 
 
 class AppenderStylerConfig(StylerConfig):
+    model_config = SettingsConfigDict(env_prefix="TURMS_STYLERS_APPENDER_")
     type: str = "turms.stylers.appender.AppenderStyler"
     append_fragment: str = "Fragment"
     append_query: str = "Query"
diff --git a/turms/stylers/capitalize.py b/turms/stylers/capitalize.py
index 271a9b3..8fe5365 100644
--- a/turms/stylers/capitalize.py
+++ b/turms/stylers/capitalize.py
@@ -1,8 +1,10 @@
 from pydantic import Field
+from pydantic_settings import SettingsConfigDict
 from turms.stylers.base import BaseStyler, StylerConfig
 
 
 class CapitalizeSylerConfig(StylerConfig):
+    model_config = SettingsConfigDict(env_prefix="TURMS_STYLERS_CAPITALIZE_")
     type: str = "turms.stylers.capitalize.CapitalizerSyler"
     capitalize_fragment: bool = True
     capitalize_query: bool = True
diff --git a/turms/stylers/default.py b/turms/stylers/default.py
index 528d206..c55c4de 100644
--- a/turms/stylers/default.py
+++ b/turms/stylers/default.py
@@ -1,4 +1,5 @@
 from pydantic import Field
+from pydantic_settings import SettingsConfigDict
 from turms.stylers.base import BaseStyler, StylerConfig
 import re
 
@@ -9,6 +10,7 @@ def camel_to_snake(name):
 
 
 class DefaultStylerConfig(StylerConfig):
+    model_config = SettingsConfigDict(env_prefix="TURMS_STYLERS_DEFAULT_")
     type: str = "turms.stylers.default.DefaultStyler"
 
 
diff --git a/turms/stylers/snake_case.py b/turms/stylers/snake_case.py
index 5c688e4..7a283eb 100644
--- a/turms/stylers/snake_case.py
+++ b/turms/stylers/snake_case.py
@@ -1,4 +1,5 @@
 from pydantic import Field
+from pydantic_settings import SettingsConfigDict
 from turms.stylers.base import BaseStyler, StylerConfig
 import re
 
@@ -9,6 +10,7 @@ def camel_to_snake(name):
 
 
 class SnakeCaseStylerConfig(StylerConfig):
+    model_config = SettingsConfigDict(env_prefix="TURMS_STYLERS_SNAKECASE_")
     type: str = "turms.stylers.snake_case.SnakeCaseStyler"
 
 
-- 
2.43.0


From a50628b9aa6a6c932ba00fbaaee67d475b784634 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:12:33 +0000
Subject: [PATCH 51/74] fix: provide the polyfill parser under its documented
 name

---
 turms/parsers/polyfill.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/turms/parsers/polyfill.py b/turms/parsers/polyfill.py
index e894ea0..89cc151 100644
--- a/turms/parsers/polyfill.py
+++ b/turms/parsers/polyfill.py
@@ -86,3 +86,7 @@ class PolyfillParser(Parser):
             return polyfill_typing(asts, self.config)
 
         return asts  # pragma: no cover
+
+
+PolyfillPlugin = PolyfillParser
+"""The name under which the parser is documented"""
-- 
2.43.0


From eaa766e29b857c8ee3f6439decbd6129cdd7550f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:15:57 +0000
Subject: [PATCH 52/74] fix: report unsupported configuration formats as such

---
 turms/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/run.py b/turms/run.py
index 94e242e..95e994d 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -79,7 +79,7 @@ FILE_NAME_LOADERS = {
 def get_file_loader(file_name: str) -> Callable:
     try:
         return FILE_NAME_LOADERS[file_name.lower().split(".")[-1]]
-    except AttributeError as err:
+    except KeyError as err:
         raise GenerationError(
             f"File {file_name} is not supported. Please use one of {FILE_NAME_LOADERS.keys()}"
         ) from err
-- 
2.43.0


From 4c1c8f874130639d44697a3eeab195b192dcab40 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:15:57 +0000
Subject: [PATCH 53/74] fix: keep the PROJECTS environment variable out of
 configurations

---
 turms/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/turms/config.py b/turms/config.py
index 0aac9d1..5b30e44 100644
--- a/turms/config.py
+++ b/turms/config.py
@@ -464,6 +464,7 @@ class GraphQLConfigMultiple(BaseSettings):
     the graphql-config specification for multiple projec."""
 
     model_config = SettingsConfigDict(
+        env_prefix="TURMS_GRAPHQL_",
         extra="allow",
     )
 
-- 
2.43.0


From 87c6ad8e9d82a4c679bedd3e8c4815648115ee43 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:19:12 +0000
Subject: [PATCH 54/74] fix: write all outputs of a project or none

---
 turms/cli/main.py |  24 ++-------
 turms/run.py      | 131 +++++++++++++++++++++++-----------------------
 2 files changed, 69 insertions(+), 86 deletions(-)

diff --git a/turms/cli/main.py b/turms/cli/main.py
index 0556907..8f1367c 100644
--- a/turms/cli/main.py
+++ b/turms/cli/main.py
@@ -5,7 +5,7 @@ from typing import Any, Callable, Dict
 
 import yaml
 from turms.config import GraphQLProject
-from turms.run import generate, write_code_to_file, write_project, write_schema_to_file
+from turms.run import generate, write_code_to_file, write_outputs
 from rich import get_console
 from rich.panel import Panel
 from rich.live import Live
@@ -226,29 +226,11 @@ def generate_projects(projects: Dict[str, GraphQLProject], title: str = "Turms")
             try:
                 generated_code, schema = generate(project, log=log)
 
+                write_outputs(project, generated_code, schema)
+
                 project_tree.label = f"{key} ✔️"
                 live.update(panel)
 
-                write_code_to_file(
-                    generated_code,
-                    project.extensions.turms.out_dir,
-                    project.extensions.turms.generated_name,
-                )
-
-                if project.extensions.turms.dump_schema:
-                    write_schema_to_file(
-                        schema,
-                        project.extensions.turms.out_dir,
-                        project.extensions.turms.schema_name,
-                    )
-
-                if project.extensions.turms.dump_configuration:
-                    write_project(
-                        project,
-                        project.extensions.turms.out_dir,
-                        project.extensions.turms.configuration_name,
-                    )
-
             except Exception as e:
                 project_tree.style = "red"
                 project_tree.label = f"{key} 💥"
diff --git a/turms/run.py b/turms/run.py
index 95e994d..e628390 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -1,5 +1,6 @@
 import ast
 import os
+import shutil
 from typing import Dict, List, Optional, Callable, Tuple
 
 import yaml
@@ -162,61 +163,84 @@ def scan_folder_for_single_config(folder_path: str | None = None) -> str:
     return configs[0]
 
 
-def write_code_to_file(code: str, outdir: str, filepath: str):
-    if not os.path.isdir(outdir):  # pragma: no cover
-        os.makedirs(outdir)
+def write_files(files: Dict[str, str]) -> None:
+    """Writes the files, or none of them if one cannot be written
 
-    generated_file = os.path.join(
-        outdir,
-        filepath,
-    )
+    Args:
+        files (Dict[str, str]): The contents by path
+    """
+    staged: Dict[str, str] = {}
 
-    with open(
-        generated_file,
-        "w",
-        encoding="utf-8",
-    ) as file:
-        file.write(code)
+    try:
+        for path, content in files.items():
+            outdir = os.path.dirname(path)
+            if outdir and not os.path.isdir(outdir):  # pragma: no cover
+                os.makedirs(outdir)
 
-    return generated_file
+            target = os.path.realpath(path)
+            if os.path.isdir(target):
+                raise GenerationError(f"Cannot write {path}, it is a directory")
 
+            staged[target] = f"{target}.{os.getpid()}.tmp"
+            with open(staged[target], "w", encoding="utf-8") as file:
+                file.write(content)
 
-def write_schema_to_file(schema: GraphQLSchema, outdir: str, filepath: str):
-    if not os.path.isdir(outdir):  # pragma: no cover
-        os.makedirs(outdir)
+            if os.path.exists(target):
+                shutil.copymode(target, staged[target])
 
-    generated_file = os.path.join(
-        outdir,
-        filepath,
-    )
+        for target in list(staged):
+            os.replace(staged.pop(target), target)
+    finally:
+        for temporary in staged.values():
+            if os.path.exists(temporary):
+                os.remove(temporary)
 
-    with open(
-        generated_file,
-        "w",
-        encoding="utf-8",
-    ) as file:
-        file.write(print_schema(schema))
 
+def write_code_to_file(code: str, outdir: str, filepath: str):
+    generated_file = os.path.join(outdir, filepath)
+    write_files({generated_file: code})
+    return generated_file
+
+
+def write_schema_to_file(schema: GraphQLSchema, outdir: str, filepath: str):
+    generated_file = os.path.join(outdir, filepath)
+    write_files({generated_file: print_schema(schema)})
     return generated_file
 
 
 def write_project(project: GraphQLProject, outdir: str, filepath: str):
-    if not os.path.isdir(outdir):  # pragma: no cover
-        os.makedirs(outdir)
+    generated_file = os.path.join(outdir, filepath)
+    write_files({generated_file: project.model_dump_json(indent=4)})
+    return generated_file
 
-    generated_file = os.path.join(
-        outdir,
-        filepath,
-    )
 
-    with open(
-        generated_file,
-        "w",
-        encoding="utf-8",
-    ) as file:
-        file.write(project.model_dump_json(indent=4))
+def write_outputs(
+    project: GraphQLProject,
+    code: str,
+    schema: GraphQLSchema,
+    outdir: Optional[str] = None,
+) -> None:
+    """Writes everything that a project is configured to write
 
-    return generated_file
+    Args:
+        project (GraphQLProject): The project
+        code (str): The code generated for it
+        schema (GraphQLSchema): The schema it was generated from
+        outdir (Optional[str], optional): Where to write the code, if not to the
+            output directory of the project. Defaults to None.
+    """
+    config = project.extensions.turms
+    files = {os.path.join(outdir or config.out_dir, config.generated_name): code}
+
+    if config.dump_schema:
+        files[os.path.join(config.out_dir, config.schema_name)] = print_schema(schema)
+
+    if config.dump_configuration:
+        files[os.path.join(config.out_dir, config.configuration_name)] = (
+            project.model_dump_json(indent=4)
+        )
+
+    write_files(files)
 
 
 def gen(
@@ -243,32 +267,9 @@ def gen(
                 f"-------------- Generating project: {key} --------------"
             )
 
-            generated_code = generate(project)
+            generated_code, schema = generate(project)
 
-            write_code_to_file(
-                generated_code,
-                overwrite_path or project.extensions.turms.out_dir,
-                project.extensions.turms.generated_name,
-            )
-
-            if project.extensions.turms.dump_schema:
-                schema = build_schema_from_schema_type(
-                    project.schema_url,
-                    allow_introspection=project.extensions.turms.allow_introspection,
-                )
-
-                write_schema_to_file(
-                    schema,
-                    project.extensions.turms.out_dir,
-                    project.extensions.turms.schema_name,
-                )
-
-            if project.extensions.turms.dump_configuration:
-                write_project(
-                    project,
-                    project.extensions.turms.out_dir,
-                    project.extensions.turms.configuration_name,
-                )
+            write_outputs(project, generated_code, schema, outdir=overwrite_path)
 
             get_console().print("Sucessfull!! :right-facing_fist::left-facing_fist:")
         except Exception as e:
-- 
2.43.0


From 7073f5e0855cb0811658b6fd73118f9f9500e998 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:19:25 +0000
Subject: [PATCH 55/74] fix: report projects and errors whose text looks like
 markup

---
 turms/cli/main.py | 25 ++++++++++++++-----------
 turms/run.py      | 14 ++++++++------
 2 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/turms/cli/main.py b/turms/cli/main.py
index 8f1367c..db9914d 100644
--- a/turms/cli/main.py
+++ b/turms/cli/main.py
@@ -9,6 +9,7 @@ from turms.run import generate, write_code_to_file, write_outputs
 from rich import get_console
 from rich.panel import Panel
 from rich.live import Live
+from rich.markup import escape
 from rich.tree import Tree
 from rich.console import Group
 import rich_click as click
@@ -198,7 +199,7 @@ def build_default_settings(template: str = "documents") -> str:
 
 
 def generate_projects(projects: Dict[str, GraphQLProject], title: str = "Turms"):
-    generation_message = f"Generating the {'.'.join(projects.keys())} projects. This may take a while...\n"
+    generation_message = f"Generating the {escape('.'.join(projects.keys()))} projects. This may take a while...\n"
 
     tree = Tree("Generating projects", style="bold green")
     panel_group = Group(generation_message, tree)
@@ -215,26 +216,26 @@ def generate_projects(projects: Dict[str, GraphQLProject], title: str = "Turms")
 
     with Live(panel, screen=False) as live:
         for key, project in projects.items():
-            project_tree = Tree(f"{key}", style="not bold white")
+            project_tree = Tree(escape(key), style="not bold white")
             tree.add(project_tree)
             live.update(panel)
 
             def log(message: str, level: str = "INFO"):
                 if level == "WARN":
-                    project_tree.add(Tree(message, style="yellow"))
+                    project_tree.add(Tree(escape(message), style="yellow"))
 
             try:
                 generated_code, schema = generate(project, log=log)
 
                 write_outputs(project, generated_code, schema)
 
-                project_tree.label = f"{key} ✔️"
+                project_tree.label = f"{escape(key)} ✔️"
                 live.update(panel)
 
             except Exception as e:
                 project_tree.style = "red"
-                project_tree.label = f"{key} 💥"
-                project_tree.add(Tree(str(e), style="red"))
+                project_tree.label = f"{escape(key)} 💥"
+                project_tree.add(Tree(escape(str(e)), style="red"))
                 if project.extensions.turms.exit_on_error:
                     raised_exceptions.append(e)
                 live.update(panel)
@@ -298,7 +299,7 @@ def watch_projects(projects, title="Turms"):  # pragma: no cover
 
     project = list(projects.values())[0]
 
-    generation_message = f"Watching the {'.'.join(projects.keys())} project. Changes will be automatically generated and added to [b]{project.extensions.turms.out_dir}/{project.extensions.turms.generated_name}[/b] when you save a file in the project's documents folder."
+    generation_message = f"Watching the {escape('.'.join(projects.keys()))} project. Changes will be automatically generated and added to [b]{escape(project.extensions.turms.out_dir)}/{escape(project.extensions.turms.generated_name)}[/b] when you save a file in the project's documents folder."
 
     tree = Panel("Watching....", style="bold green")
     panel_group = Group(generation_message, tree)
@@ -312,7 +313,7 @@ def watch_projects(projects, title="Turms"):  # pragma: no cover
     )
 
     with Live(panel, screen=False) as live:
-        tree.renderable = f"Watching {project.documents}..."
+        tree.renderable = f"Watching {escape(str(project.documents))}..."
         live.update(panel)
 
         for event in stream_changes(project.documents):
@@ -340,7 +341,7 @@ def watch_projects(projects, title="Turms"):  # pragma: no cover
                 live.update(panel)
 
             except Exception as e:
-                tree.renderable = f"[red] {str(e)} [/],"
+                tree.renderable = f"[red] {escape(str(e))} [/],"
                 tree.border_style = "not bold red"
                 tree.style = "not bold red"
                 live.update(panel)
@@ -384,7 +385,7 @@ def init(config, template):
             return
 
     get_console().print(
-        f"Creating {config} in {app_directory} (template: {template})"
+        escape(f"Creating {config} in {app_directory} (template: {template})")
     )
     with open(os.path.join(app_directory, config), "w") as f:
         f.write(build_default_settings(template))
@@ -426,7 +427,9 @@ def download(projects, out, dir):
         for key, project in projects.items():
             filename = f"{key}{out}"
             get_console().print(
-                f"Downloading schema for project {key} to {app_directory}/{filename}"
+                escape(
+                    f"Downloading schema for project {key} to {app_directory}/{filename}"
+                )
             )
             schema = build_schema_from_schema_type(
                 project.schema_url, allow_introspection=True
diff --git a/turms/run.py b/turms/run.py
index e628390..2a4d1ba 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -264,7 +264,8 @@ def gen(
     for key, project in projects.items():
         try:
             get_console().print(
-                f"-------------- Generating project: {key} --------------"
+                f"-------------- Generating project: {key} --------------",
+                markup=False,
             )
 
             generated_code, schema = generate(project)
@@ -274,7 +275,8 @@ def gen(
             get_console().print("Sucessfull!! :right-facing_fist::left-facing_fist:")
         except Exception as e:
             get_console().print(
-                "-------- ERROR FOR PROJECT: " + key.upper() + " --------"
+                "-------- ERROR FOR PROJECT: " + key.upper() + " --------",
+                markup=False,
             )
             get_console().print_exception()
             if strict:
@@ -423,7 +425,7 @@ def generate(
             parser_config.type, config=parser_config.model_dump(), log=log
         )
         if verbose:
-            get_console().print(f"Using Parser {styler}")
+            get_console().print(f"Using Parser {styler}", markup=False)
         parsers.append(styler)
 
     for plugins_config in gen_config.plugins:
@@ -431,7 +433,7 @@ def generate(
             plugins_config.type, config=plugins_config.model_dump(), log=log
         )
         if verbose:
-            get_console().print(f"Using Plugin {styler}")
+            get_console().print(f"Using Plugin {styler}", markup=False)
         plugins.append(styler)
 
     for styler_config in gen_config.stylers:
@@ -439,13 +441,13 @@ def generate(
             styler_config.type, config=styler_config.model_dump(), log=log
         )
         if verbose:
-            get_console().print(f"Using Styler {styler}")
+            get_console().print(f"Using Styler {styler}", markup=False)
         stylers.append(styler)
 
     for proc_config in gen_config.processors:
         styler = instantiate(proc_config.type, config=proc_config.model_dump(), log=log)
         if verbose:
-            get_console().print(f"Using Processor {styler}")
+            get_console().print(f"Using Processor {styler}", markup=False)
         processors.append(styler)
 
     code = generate_code(
-- 
2.43.0


From da4babc856b80336527925fe6d3889ab7177bced Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:26:13 +0000
Subject: [PATCH 56/74] fix: load local schemas whose path starts with http

---
 turms/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/run.py b/turms/run.py
index 2a4d1ba..6eaafab 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -298,7 +298,7 @@ def instantiate(module_path: str, **kwargs):
 
 
 def is_url(url: str) -> bool:
-    return url.startswith("http") or url.startswith("https")
+    return url.startswith(("http://", "https://"))
 
 
 def build_schema_from_schema_type(
-- 
2.43.0


From cff23e41d5b3f27db0e334b72396d385de8600a1 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:26:35 +0000
Subject: [PATCH 57/74] fix: keep @oneOf in dumped and downloaded schemas

---
 turms/cli/main.py |  6 ++----
 turms/run.py      |  6 +++---
 turms/utils.py    | 46 +++++++++++++++++++++++++++++++++++++++++-----
 3 files changed, 46 insertions(+), 12 deletions(-)

diff --git a/turms/cli/main.py b/turms/cli/main.py
index db9914d..970476a 100644
--- a/turms/cli/main.py
+++ b/turms/cli/main.py
@@ -5,7 +5,7 @@ from typing import Any, Callable, Dict
 
 import yaml
 from turms.config import GraphQLProject
-from turms.run import generate, write_code_to_file, write_outputs
+from turms.run import generate, write_code_to_file, write_outputs, write_schema_to_file
 from rich import get_console
 from rich.panel import Panel
 from rich.live import Live
@@ -19,7 +19,6 @@ from turms.run import (
     build_schema_from_schema_type,
 )
 from .watch import stream_changes
-from graphql import print_schema
 from functools import wraps
 
 click.rich_click.USE_RICH_MARKUP = True
@@ -434,8 +433,7 @@ def download(projects, out, dir):
             schema = build_schema_from_schema_type(
                 project.schema_url, allow_introspection=True
             )
-            with open(os.path.join(app_directory, filename), "w") as f:
-                f.write(print_schema(schema))
+            write_schema_to_file(schema, app_directory, filename)
     except Exception as e:
         raise click.ClickException(str(e)) from e
 
diff --git a/turms/run.py b/turms/run.py
index 6eaafab..0c4569c 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -9,7 +9,6 @@ from graphql import (
     parse,
     build_ast_schema,
     build_client_schema,
-    print_schema,
 )
 from pydantic import ValidationError
 from rich import get_console
@@ -34,6 +33,7 @@ from turms.parsers.base import Parser
 from turms.processors.base import Processor
 from turms.registry import ClassRegistry
 from turms.stylers.base import Styler
+from turms.utils import print_sdl
 from pydantic import ValidationError
 
 from .errors import GenerationError
@@ -204,7 +204,7 @@ def write_code_to_file(code: str, outdir: str, filepath: str):
 
 def write_schema_to_file(schema: GraphQLSchema, outdir: str, filepath: str):
     generated_file = os.path.join(outdir, filepath)
-    write_files({generated_file: print_schema(schema)})
+    write_files({generated_file: print_sdl(schema)})
     return generated_file
 
 
@@ -233,7 +233,7 @@ def write_outputs(
     files = {os.path.join(outdir or config.out_dir, config.generated_name): code}
 
     if config.dump_schema:
-        files[os.path.join(config.out_dir, config.schema_name)] = print_schema(schema)
+        files[os.path.join(config.out_dir, config.schema_name)] = print_sdl(schema)
 
     if config.dump_configuration:
         files[os.path.join(config.out_dir, config.configuration_name)] = (
diff --git a/turms/utils.py b/turms/utils.py
index 7f8992a..a717216 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -10,6 +10,7 @@ from graphql import (
     FragmentDefinitionNode,
     FragmentSpreadNode,
     GraphQLEnumType,
+    GraphQLInputObjectType,
     GraphQLInterfaceType,
     GraphQLList,
     GraphQLNamedOutputType,
@@ -20,6 +21,7 @@ from graphql import (
     GraphQLScalarType,
     GraphQLUnionType,
     InlineFragmentNode,
+    InputObjectTypeDefinitionNode,
     IntValueNode,
     ListTypeNode,
     ListValueNode,
@@ -37,11 +39,12 @@ from graphql import (
     Visitor,
     parse,
     print_ast,
+    print_schema,
     validate,
     visit,
 )
 from graphql.error.graphql_error import GraphQLError
-from graphql.language.ast import DocumentNode, FieldNode, NameNode
+from graphql.language.ast import DirectiveNode, DocumentNode, FieldNode, NameNode
 from graphql import GraphQLSchema
 
 from turms.config import GeneratorConfig
@@ -597,10 +600,43 @@ def is_oneof_input_type(graphql_type) -> bool:
     where ``@oneOf`` is therefore undetectable)."""
     if getattr(graphql_type, "is_one_of", False):
         return True
-    ast_node = getattr(graphql_type, "ast_node", None)
-    if ast_node is None:
-        return False
-    return any(directive.name.value == "oneOf" for directive in ast_node.directives)
+    ast_nodes = (
+        getattr(graphql_type, "ast_node", None),
+        *(getattr(graphql_type, "extension_ast_nodes", None) or ()),
+    )
+    return any(
+        directive.name.value == "oneOf"
+        for ast_node in ast_nodes
+        if ast_node is not None
+        for directive in ast_node.directives
+    )
+
+
+def print_sdl(schema: GraphQLSchema) -> str:
+    """Prints the schema as SDL, including the ``@oneOf`` directives of its input
+    types, which graphql-core 3.2 leaves out"""
+    sdl = print_schema(schema)
+    oneofs = {
+        name
+        for name, graphql_type in schema.type_map.items()
+        if isinstance(graphql_type, GraphQLInputObjectType)
+        and is_oneof_input_type(graphql_type)
+    }
+    if not oneofs:
+        return sdl
+
+    document = parse(sdl)
+    for node in document.definitions:
+        if (
+            isinstance(node, InputObjectTypeDefinitionNode)
+            and node.name.value in oneofs
+            and not node.directives
+        ):
+            node.directives = (
+                *node.directives,
+                DirectiveNode(name=NameNode(value="oneOf"), arguments=()),
+            )
+    return print_ast(document)
 
 
 def get_interface_bases(config: GeneratorConfig, registry: ClassRegistry):
-- 
2.43.0


From d16f8264b1d170849afd4cf6e50b219f925804ed Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 02:30:49 +0000
Subject: [PATCH 58/74] fix: keep comments at the end of a file from
 documenting the next operation

---
 turms/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/turms/utils.py b/turms/utils.py
index a717216..7e9eb2c 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -490,8 +490,9 @@ def parse_documents(
 
     for file in x:
         with open(file, "r", encoding="utf-8-sig") as f:
-            # a file may end in a comment or within a token
-            dsl += f.read() + "\n"
+            # a file may end in a comment or within a token, the blank line keeps
+            # the comment from documenting the operation of the next file
+            dsl += f.read() + "\n\n"
 
     if dsl.strip() == "":
         raise NoDocumentsFoundError(
-- 
2.43.0


From ea1f7fbfcf0264ae71596e8375008abe82a589ea Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 03:11:33 +0000
Subject: [PATCH 59/74] fix: import the bases of nested selections

---
 turms/recurse.py | 11 +++--------
 turms/utils.py   | 17 +++++++++++------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/turms/recurse.py b/turms/recurse.py
index fae880b..926c4c5 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -19,6 +19,7 @@ from turms.utils import (
     generate_typename_field,
     get_additional_bases_for_type,
     get_interface_bases,
+    get_object_bases,
     merge_bases_sequences,
     merge_body_sequences,
     non_typename_fields,
@@ -212,10 +213,7 @@ def recurse_annotation(
                         sub_node.type_condition.name.value, config, registry
                     )
 
-                config_bases = [
-                    ast.Name(id=base.split(".")[-1], ctx=ast.Load())
-                    for base in config.object_bases
-                ]
+                config_bases = get_object_bases(config, registry)
 
                 merged_body = merge_body_sequences(
                     this_inline_fragment_fields,
@@ -643,10 +641,7 @@ def recurse_annotation(
             object_class_name,
             bases=merge_bases_sequences(
                 additional_bases,
-                [
-                    ast.Name(id=base.split(".")[-1], ctx=ast.Load())
-                    for base in config.object_bases
-                ],
+                get_object_bases(config, registry),
             ),
             decorator_list=[],
             keywords=[],
diff --git a/turms/utils.py b/turms/utils.py
index 7e9eb2c..c169d30 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -650,13 +650,18 @@ def get_interface_bases(config: GeneratorConfig, registry: ClassRegistry):
             for base in config.interface_bases
         ]
     else:
-        for base in config.object_bases:
-            registry.register_import(base)
+        return get_object_bases(config, registry)
 
-        return [
-            ast.Name(id=base.split(".")[-1], ctx=ast.Load())
-            for base in config.object_bases
-        ]
+
+def get_object_bases(
+    config: GeneratorConfig, registry: ClassRegistry
+) -> List[ast.Name]:
+    for base in config.object_bases:
+        registry.register_import(base)
+
+    return [
+        ast.Name(id=base.split(".")[-1], ctx=ast.Load()) for base in config.object_bases
+    ]
 
 
 def interface_is_extended_by_other_interfaces(
-- 
2.43.0


From cf4f8995b0219a07f9ff829d5aac56aadccef51f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 03:12:05 +0000
Subject: [PATCH 60/74] fix: extend members of union fragments by the bases of
 their type

---
 turms/plugins/fragments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 9910aea..95dd970 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -514,7 +514,6 @@ def generate_fragment(
 
     elif isinstance(type, GraphQLUnionType):
         base_fragment_name = registry.style_fragment_class(f.name.value)
-        additional_bases = get_additional_bases_for_type(type.name, config, registry)
 
         sub_nodes = non_typename_fields(f)
 
@@ -612,6 +611,7 @@ def generate_fragment(
                 class_name,
                 bases=merge_bases_sequences(
                     ast_base_nodes,
+                    get_additional_bases_for_type(i.name, config, registry),
                     get_fragment_bases("UNION", config, plugin_config, registry),
                 ),
                 decorator_list=[],
-- 
2.43.0


From 99c37cfc6f2da5d2c51ec99876027b31242eb907 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 03:12:05 +0000
Subject: [PATCH 61/74] fix: extend interface fragments by the configured
 fragment bases

---
 turms/plugins/fragments.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 95dd970..96cdb09 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -30,6 +30,7 @@ from turms.utils import (
     generate_typename_field,
     get_additional_bases_for_type,
     get_interface_bases,
+    get_object_bases,
     merge_bases_sequences,
     merge_body_sequences,
     replace_iteratively,
@@ -165,12 +166,10 @@ def get_fragment_bases(
                 for base in pluginConfig.object_bases
             ]
 
-    for base in config.object_bases:
-        registry.register_import(base)
+    if kind == "INTERFACE":
+        return bases + get_interface_bases(config, registry)
 
-    return bases + [
-        ast.Name(id=base.split(".")[-1], ctx=ast.Load()) for base in config.object_bases
-    ]
+    return bases + get_object_bases(config, registry)
 
 
 def generate_fragment(
@@ -308,8 +307,9 @@ def generate_fragment(
         mother_class = ast.ClassDef(
             mother_class_name,
             bases=merge_bases_sequences(
-                additional_bases, get_interface_bases(config, registry)
-            ),  # Todo: fill with base
+                additional_bases,
+                get_fragment_bases("INTERFACE", config, plugin_config, registry),
+            ),
             decorator_list=[],
             keywords=[],
             type_params=[],
-- 
2.43.0


From ea03cdf45317ca94dd0e3d9be8065b989fa58779 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 03:21:25 +0000
Subject: [PATCH 62/74] fix: keep fields of interface fragments in catch-all
 classes

---
 turms/plugins/fragments.py | 10 ++++++----
 turms/recurse.py           | 28 ++++++++++++++++++++++++++++
 turms/registry.py          |  8 ++++++++
 3 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 96cdb09..37cb6a9 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -22,7 +22,7 @@ from pydantic import Field
 from pydantic_settings import SettingsConfigDict
 from turms.config import GeneratorConfig, GraphQLTypes
 from turms.plugins.base import Plugin, PluginConfig
-from turms.recurse import type_field_node
+from turms.recurse import spread_catch_bases, type_field_node
 from turms.registry import ClassRegistry
 from turms.utils import (
     generate_generic_typename_field,
@@ -325,9 +325,10 @@ def generate_fragment(
 
         catch_class = ast.ClassDef(
             catch_class_name,
-            bases=[
-                ast.Name(id=mother_class_name, ctx=ast.Load())
-            ],  # Todo: fill with base
+            bases=merge_bases_sequences(
+                spread_catch_bases(type, sub_nodes, client_schema, registry),
+                [ast.Name(id=mother_class_name, ctx=ast.Load())],
+            ),
             decorator_list=[],
             keywords=[],
             type_params=[],
@@ -396,6 +397,7 @@ def generate_fragment(
         registry.register_interface_fragment_implementations(
             f.name.value, implementaionMap
         )
+        registry.register_interface_fragment_catch(f.name.value, catch_class_name)
 
         return tree
 
diff --git a/turms/recurse.py b/turms/recurse.py
index 926c4c5..cb4ced2 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -87,6 +87,33 @@ def unselected_members(
     ]
 
 
+def spread_catch_bases(
+    type: GraphQLInterfaceType,
+    sub_nodes: List[FieldNode | SelectionNode],
+    client_schema: GraphQLSchema,
+    registry: ClassRegistry,
+) -> List[ast.Name]:
+    """Returns the catch all classes of the fragments that are spread on the interface
+
+    Fragments on the interface itself (or one that it implements) also select from
+    implementations that are not part of the schema.
+    """
+    bases: List[ast.Name] = []
+    for sub_node in sub_nodes:
+        if not isinstance(sub_node, FragmentSpreadNode):
+            continue
+
+        catch_class = registry.get_interface_fragment_catch_or_none(sub_node.name.value)
+        if catch_class is None:
+            continue
+
+        fragment_type = registry.get_fragment_type(sub_node.name.value)
+        if fragment_type is type or client_schema.is_sub_type(fragment_type, type):
+            bases.append(ast.Name(id=catch_class, ctx=ast.Load()))
+
+    return bases
+
+
 def recurse_annotation(
     node: FieldNode,
     parent: str,
@@ -496,6 +523,7 @@ def recurse_annotation(
             catch_all_class = ast.ClassDef(
                 catch_all_class_name,
                 bases=merge_bases_sequences(
+                    spread_catch_bases(type, sub_nodes, client_schema, registry),
                     [ast.Name(id=mother_class_name, ctx=ast.Load())],
                     get_interface_bases(config, registry),
                 ),  # Todo: fill with base
diff --git a/turms/registry.py b/turms/registry.py
index 77d17a6..33a3e71 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -298,6 +298,8 @@ class ClassRegistry(object):
         # Maps for the interface fragments and union fragments
         self.interfacefragments_impl_map: Dict[str, Dict[str, str]] = {}
         self.unionfragment_members_map: Dict[str, Dict[str, str]] = {}
+        # the classes for implementations of interface fragments not in the schema
+        self.interfacefragments_catch_map: Dict[str, str] = {}
 
         self.operation_single_operation_map: Dict[
             str, ast.AST
@@ -494,6 +496,12 @@ class ClassRegistry(object):
     def get_interface_fragment_implementations(self, fragmentname: str):
         return self.interfacefragments_impl_map[fragmentname]
 
+    def register_interface_fragment_catch(self, fragmentname: str, classname: str):
+        self.interfacefragments_catch_map[fragmentname] = classname
+
+    def get_interface_fragment_catch_or_none(self, fragmentname: str):
+        return self.interfacefragments_catch_map.get(fragmentname)
+
     def register_union_fragment_members(
         self, fragmentname: str, membersMap: Dict[str, str]
     ):
-- 
2.43.0


From db9bb704404067488755b6fc1f06099091920068 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 03:27:24 +0000
Subject: [PATCH 63/74] fix: keep the value of boolean variable defaults

---
 turms/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/utils.py b/turms/utils.py
index c169d30..3ff25d4 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -975,7 +975,7 @@ def parse_value_node(
     elif isinstance(value_node, StringValueNode):
         return value_node.value
     elif isinstance(value_node, BooleanValueNode):
-        return value_node.value == "true"
+        return value_node.value
     elif isinstance(value_node, NullValueNode):
         return None
     elif isinstance(value_node, EnumValueNode):
-- 
2.43.0


From a71cd9e7a5e5cd844fdc9965e3225d1ae0c4506c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 03:34:56 +0000
Subject: [PATCH 64/74] fix: require inherited fields named like pydantic model
 attributes

---
 turms/run.py | 43 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/turms/run.py b/turms/run.py
index 0c4569c..a9e875f 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -1,4 +1,5 @@
 import ast
+import copy
 import os
 import shutil
 from typing import Dict, List, Optional, Callable, Tuple
@@ -31,7 +32,7 @@ from turms.helpers import (
 from turms.plugins.base import Plugin
 from turms.parsers.base import Parser
 from turms.processors.base import Processor
-from turms.registry import ClassRegistry
+from turms.registry import ClassRegistry, shadows_model_attribute
 from turms.stylers.base import Styler
 from turms.utils import print_sdl
 from pydantic import ValidationError
@@ -497,6 +498,45 @@ def drop_implied_bases(tree: List[ast.AST]) -> None:
         )
 
 
+def repeat_shadowing_fields(tree: List[ast.AST]) -> None:
+    """Repeats inherited fields that are named like an attribute of pydantic's models
+
+    Pydantic takes the attribute (schema, copy, json...) for the default of such a
+    field in every class that inherits the field without declaring it.
+    """
+    classes = {cls.name: cls for cls in tree if isinstance(cls, ast.ClassDef)}
+    fields: Dict[str, Dict[str, List[ast.stmt]]] = {}
+
+    for cls in classes.values():
+        fields[cls.name] = {}
+        for stmt, following in zip(cls.body, [*cls.body[1:], None]):
+            if (
+                isinstance(stmt, ast.AnnAssign)
+                and isinstance(stmt.target, ast.Name)
+                and shadows_model_attribute(stmt.target.id)
+            ):
+                documented = isinstance(following, ast.Expr)
+                fields[cls.name][stmt.target.id] = (
+                    [stmt, following] if documented else [stmt]
+                )
+
+    def linearize(name: str, order: List[str]) -> List[str]:
+        for base in reversed(classes[name].bases):
+            if isinstance(base, ast.Name) and base.id in classes:
+                if base.id not in order:
+                    linearize(base.id, order)
+        order.append(name)
+        return order
+
+    for name, cls in classes.items():
+        own = set(fields[name])
+        for ancestor in reversed(linearize(name, [])[:-1]):
+            for field_name, statements in fields[ancestor].items():
+                if field_name not in own:
+                    own.add(field_name)
+                    cls.body = cls.body + copy.deepcopy(statements)
+
+
 def generate_ast(
     config: GeneratorConfig,
     schema: GraphQLSchema,
@@ -535,6 +575,7 @@ def generate_ast(
             ) from e
 
     drop_implied_bases(global_tree)
+    repeat_shadowing_fields(global_tree)
 
     global_tree = (
         registry.generate_imports() + registry.generate_builtins() + global_tree
-- 
2.43.0


From f223bc165d132ec8816ef9634d7795f48439b822 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 03:51:48 +0000
Subject: [PATCH 65/74] fix: ignore folders that a schema or documents pattern
 matches

---
 turms/helpers.py | 9 +++++++--
 turms/utils.py   | 3 ++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/turms/helpers.py b/turms/helpers.py
index c280e38..4c71681 100644
--- a/turms/helpers.py
+++ b/turms/helpers.py
@@ -1,5 +1,6 @@
 import glob
 import json
+import os
 from importlib import import_module
 from typing import Any, Dict, Optional, Tuple
 
@@ -127,7 +128,9 @@ def load_dsl_from_glob(
     allow_introspection: bool = True,
 ) -> DSLString:
     """Build a GraphQL schema from a glob string"""
-    schema_glob = glob.glob(glob_string, recursive=True)
+    schema_glob = [
+        file for file in glob.glob(glob_string, recursive=True) if os.path.isfile(file)
+    ]
     schema_glob.sort()  # Ensure deterministic order
     if len(schema_glob) == 0:
         raise GenerationError(f"No files found for glob string {glob_string}")
@@ -139,7 +142,9 @@ def load_dsl_from_glob(
 def load_introspection_from_glob(
     glob_string: str,
 ):
-    schema_glob = glob.glob(glob_string, recursive=True)
+    schema_glob = [
+        file for file in glob.glob(glob_string, recursive=True) if os.path.isfile(file)
+    ]
     schema_glob.sort()  # Ensure deterministic order
     if len(schema_glob) == 0:
         raise GenerationError(f"No files found for glob string {glob_string}")
diff --git a/turms/utils.py b/turms/utils.py
index 3ff25d4..842b5df 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -1,5 +1,6 @@
 import ast
 import glob
+import os
 import re
 from typing import Any, Dict, List, Optional, Sequence, Set, Tuple, Union
 
@@ -481,7 +482,7 @@ def parse_documents(
     if not scan_glob:
         raise GenerationError("Couldnt find documents glob")
 
-    x = glob.glob(scan_glob, recursive=True)
+    x = [file for file in glob.glob(scan_glob, recursive=True) if os.path.isfile(file)]
     x.sort()  # Ensure deterministic order
 
     errors: List[GraphQLError] = []
-- 
2.43.0


From b6ac729d8e6572dd2cd57e3b6d1fbb5cc4630173 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 03:51:48 +0000
Subject: [PATCH 66/74] fix: watch the documents that the pattern of a project
 names

---
 turms/cli/main.py  |  5 +++--
 turms/cli/watch.py | 37 ++++++++++++++++++++++++++++++++-----
 2 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/turms/cli/main.py b/turms/cli/main.py
index 970476a..f870b54 100644
--- a/turms/cli/main.py
+++ b/turms/cli/main.py
@@ -297,6 +297,7 @@ def watch_projects(projects, title="Turms"):  # pragma: no cover
         )
 
     project = list(projects.values())[0]
+    documents = project.extensions.turms.documents or project.documents
 
     generation_message = f"Watching the {escape('.'.join(projects.keys()))} project. Changes will be automatically generated and added to [b]{escape(project.extensions.turms.out_dir)}/{escape(project.extensions.turms.generated_name)}[/b] when you save a file in the project's documents folder."
 
@@ -312,10 +313,10 @@ def watch_projects(projects, title="Turms"):  # pragma: no cover
     )
 
     with Live(panel, screen=False) as live:
-        tree.renderable = f"Watching {escape(str(project.documents))}..."
+        tree.renderable = f"Watching {escape(str(documents))}..."
         live.update(panel)
 
-        for event in stream_changes(project.documents):
+        for event in stream_changes(documents):
             live.update(panel)
 
             try:
diff --git a/turms/cli/watch.py b/turms/cli/watch.py
index 0287a10..6342248 100644
--- a/turms/cli/watch.py
+++ b/turms/cli/watch.py
@@ -1,20 +1,47 @@
+from fnmatch import fnmatch
+from glob import has_magic
 from watchfiles.filters import BaseFilter
 from watchfiles import Change, watch
 import os
 
 
 class GraphQLFilter(BaseFilter):  # pragma: no cover
+    """Lets changes of graphql files and of everything the documents pattern
+    matches through"""
+
+    def __init__(self, documents: str | None = None) -> None:
+        super().__init__()
+        # ** also matches no directory at all, and * of fnmatch matches slashes
+        self.pattern = (
+            os.path.abspath(documents).replace(f"**{os.sep}", "*")
+            if documents
+            else None
+        )
+
     def __call__(self, change: Change, path: str) -> bool:
         x = super().__call__(change, path)
         if not x:
             return False
 
-        x = os.path.basename(path)
-        fileending = x.split(".")[1]
+        if os.path.splitext(path)[1] == ".graphql":
+            return True
+
+        return self.pattern is not None and fnmatch(
+            os.path.abspath(path), self.pattern
+        )
+
 
-        return fileending == "graphql"
+def documents_folder(documents: str) -> str:  # pragma: no cover
+    """The innermost folder that all files matching the pattern are below"""
+    folder = documents
+    while has_magic(folder) or not os.path.isdir(folder):
+        folder = os.path.dirname(folder) or "."
+    return folder
 
 
-def stream_changes(folder: str):  # pragma: no cover
-    for changes in watch(".", watch_filter=GraphQLFilter(), debounce=2000, step=500):
+def stream_changes(documents: str | None):  # pragma: no cover
+    folders = [".", documents_folder(documents)] if documents else ["."]
+    for changes in watch(
+        *folders, watch_filter=GraphQLFilter(documents), debounce=2000, step=500
+    ):
         yield changes
-- 
2.43.0


From f0d249bc1ddee18dd3ce65bd5d398f797a0eeb8c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 04:20:06 +0000
Subject: [PATCH 67/74] fix: put the fields of inline fragments on interfaces
 into the class body itself

---
 turms/plugins/fragments.py | 2 +-
 turms/recurse.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 37cb6a9..5e89c95 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -300,7 +300,7 @@ def generate_fragment(
                             registry,
                         )
 
-                inline_fragment_fields.setdefault(on_type_name, []).append(
+                inline_fragment_fields.setdefault(on_type_name, []).extend(
                     inline_fields
                 )
 
diff --git a/turms/recurse.py b/turms/recurse.py
index cb4ced2..3adacfc 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -406,7 +406,7 @@ def recurse_annotation(
                         registry,
                     )
 
-                inline_fragment_fields.setdefault(on_type_name, []).append(
+                inline_fragment_fields.setdefault(on_type_name, []).extend(
                     inline_fields
                 )
 
-- 
2.43.0


From 05d4ca182bfc67c0aa80167a8bff3b55a71f8421 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 04:52:20 +0000
Subject: [PATCH 68/74] fix: drop class bases that an earlier base already
 implies

---
 turms/run.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/turms/run.py b/turms/run.py
index a9e875f..946afc3 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -470,7 +470,7 @@ def parse_asts_to_string(generated_ast: List[ast.AST]) -> str:
 
 
 def drop_implied_bases(tree: List[ast.AST]) -> None:
-    """Drops bases that are repeated, or that a later base already inherits from
+    """Drops bases that are repeated, or that another base already inherits from
 
     A selection can spread the same fragment twice, or a fragment next to another
     one that spreads it as well, which python refuses as bases.
@@ -489,7 +489,8 @@ def drop_implied_bases(tree: List[ast.AST]) -> None:
             or (
                 names[i] not in names[:i]
                 and not any(
-                    names[i] in ancestors.get(name, ()) for name in names[i + 1 :]
+                    names[i] in ancestors.get(name, ())
+                    for name in (names if names[i] in ancestors else names[i + 1 :])
                 )
             )
         ]
-- 
2.43.0


From c6062d02c2968e6dd1bcd6c43086a263cf3d19bd Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 04:53:51 +0000
Subject: [PATCH 69/74] fix: order class bases so that fragments spread in
 opposite orders combine

---
 turms/run.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/turms/run.py b/turms/run.py
index 946afc3..f71a47c 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -499,6 +499,37 @@ def drop_implied_bases(tree: List[ast.AST]) -> None:
         )
 
 
+def align_bases(tree: List[ast.AST]) -> None:
+    """Puts the bases of all classes in one order where python could not reconcile them
+
+    Fragments can spread the same fragments in opposite orders, a class that inherits
+    from both needs an order that suits each of them. Ordering the generated bases by
+    their definition (the latest, that is the most derived, first) always does.
+    """
+    classes = [cls for cls in tree if isinstance(cls, ast.ClassDef)]
+    position = {cls.name: i for i, cls in enumerate(classes)}
+
+    try:
+        built: Dict[str, type] = {}
+        for cls in classes:
+            names = [base.id for base in cls.bases if isinstance(base, ast.Name)]
+            bases = [built.setdefault(name, type(name, (), {})) for name in names]
+            built[cls.name] = type(cls.name, tuple(bases), {})
+    except TypeError:
+        for cls in classes:
+            generated = [
+                base
+                for base in cls.bases
+                if isinstance(base, ast.Name) and base.id in position
+            ]
+            ordered = iter(
+                sorted(generated, key=lambda x: position[x.id], reverse=True)
+            )
+            cls.bases = [
+                next(ordered) if base in generated else base for base in cls.bases
+            ]
+
+
 def repeat_shadowing_fields(tree: List[ast.AST]) -> None:
     """Repeats inherited fields that are named like an attribute of pydantic's models
 
@@ -576,6 +607,7 @@ def generate_ast(
             ) from e
 
     drop_implied_bases(global_tree)
+    align_bases(global_tree)
     repeat_shadowing_fields(global_tree)
 
     global_tree = (
-- 
2.43.0


From 33e2356dd77abd56c9377066fc50f73b753fed15 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 05:18:41 +0000
Subject: [PATCH 70/74] fix: make fields that @skip or @include can leave out
 optional

---
 turms/recurse.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/turms/recurse.py b/turms/recurse.py
index 3adacfc..36f707f 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -2,6 +2,7 @@ from typing import Any, Dict, List, Union, cast
 from turms.config import GeneratorConfig
 from graphql import GraphQLSchema, GraphQLWrappingType
 from graphql.language.ast import (
+    BooleanValueNode,
     FieldNode,
     FragmentSpreadNode,
     InlineFragmentNode,
@@ -787,6 +788,21 @@ def recurse_annotation(
             )
 
 
+def may_be_left_out(node: FieldNode) -> bool:
+    """Checks if @skip or @include can leave the field out of a response"""
+    for directive in node.directives or ():
+        if directive.name.value not in ("skip", "include"):
+            continue
+        for argument in directive.arguments:
+            condition = argument.value
+            if (
+                not isinstance(condition, BooleanValueNode)
+                or condition.value != (directive.name.value == "include")
+            ):
+                return True
+    return False
+
+
 BoundType = Union[
     GraphQLScalarType,
     GraphQLObjectType,
@@ -832,6 +848,9 @@ def type_field_node(
 
     type = cast(BoundType, field.type)
 
+    if isinstance(type, GraphQLNonNull) and may_be_left_out(node):
+        type = cast(BoundType, type.of_type)
+
     if not isinstance(type, GraphQLNonNull):
         keywords.append(ast.keyword(arg="default", value=ast.Constant(value=None)))
 
-- 
2.43.0


From d16489bc9737fe53c4356c4543ce2ac5ca842f35 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 05:20:43 +0000
Subject: [PATCH 71/74] fix: combine all fragments that select from the same
 union member, refuse nested inline fragments instead of dropping them

---
 turms/plugins/fragments.py | 62 ++++++++++++++++++++----------
 turms/recurse.py           | 78 ++++++++++++++++++++++++++++++++------
 turms/registry.py          | 13 ++++++-
 3 files changed, 121 insertions(+), 32 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 5e89c95..617b45e 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -229,18 +229,15 @@ def generate_fragment(
         for sub_node in sub_nodes:
             if isinstance(sub_node, FragmentSpreadNode):
                 # Spread nodes are like inheritance?
-                try:
-                    # We are dealing with a fragment that is an interface
-                    implementation_map = (
-                        registry.get_interface_fragment_implementations(
-                            sub_node.name.value
-                        )
-                    )
-
+                # We may be dealing with a fragment that is an interface or union
+                implementation_map = registry.get_abstract_fragment_classes(
+                    sub_node.name.value
+                )
+                if implementation_map is not None:
                     for k, v in implementation_map.items():
                         implementing_class_base_classes.setdefault(k, []).append(v)
 
-                except KeyError:
+                else:
                     x = registry.get_fragment_type(sub_node.name.value)
                     implementing_class_base_classes.setdefault(x.name, []).append(
                         registry.inherit_fragment(sub_node.name.value)
@@ -260,6 +257,12 @@ def generate_fragment(
 
             if isinstance(sub_node, InlineFragmentNode):
                 on_type_name = sub_node.type_condition.name.value
+                if not isinstance(
+                    client_schema.get_type(on_type_name), GraphQLObjectType
+                ):
+                    raise NotImplementedError(
+                        "Inline fragments on non-object types are not supported"
+                    )
 
                 inline_fields = []
 
@@ -278,6 +281,11 @@ def generate_fragment(
                         )
                         continue
 
+                    if isinstance(field, InlineFragmentNode):
+                        raise NotImplementedError(
+                            "Inline fragments within inline fragments are not supported"
+                        )
+
                     if isinstance(field, FieldNode):
                         if field.name.value == "__typename":
                             continue
@@ -417,11 +425,14 @@ def generate_fragment(
             if isinstance(field, FragmentDefinitionNode):  # pragma: no cover
                 continue
 
+            if isinstance(field, InlineFragmentNode):
+                raise NotImplementedError("Inline Fragments are not yet implemented")
+
             if isinstance(field, FragmentSpreadNode):
-                try:
-                    implementationMap = registry.get_interface_fragment_implementations(
-                        field.name.value
-                    )
+                implementationMap = registry.get_abstract_fragment_classes(
+                    field.name.value
+                )
+                if implementationMap is not None:
                     if type.name in implementationMap:
                         additional_bases = [
                             ast.Name(
@@ -433,7 +444,7 @@ def generate_fragment(
                         raise Exception(
                             f"Could not find implementation for {type.name} in {implementationMap}"
                         )
-                except KeyError:
+                else:
                     additional_bases = [
                         ast.Name(
                             id=registry.inherit_fragment(field.name.value),
@@ -528,15 +539,15 @@ def generate_fragment(
         for sub_node in sub_nodes:
             if isinstance(sub_node, FragmentSpreadNode):
                 # Spread nodes are like inheritance
-                try:
-                    # We are dealing with a fragment that is a union
-                    implementation_map = registry.get_union_fragment_members(
-                        sub_node.name.value
-                    )
+                # We may be dealing with a fragment that is a union or interface
+                implementation_map = registry.get_abstract_fragment_classes(
+                    sub_node.name.value
+                )
+                if implementation_map is not None:
                     for k, v in implementation_map.items():
                         member_class_base_classes.setdefault(k, []).append(v)
 
-                except KeyError:
+                else:
                     x = registry.get_fragment_type(sub_node.name.value)
                     member_class_base_classes.setdefault(x.name, []).append(
                         registry.inherit_fragment(sub_node.name.value)
@@ -549,6 +560,12 @@ def generate_fragment(
 
             elif isinstance(sub_node, InlineFragmentNode):
                 on_type_name = sub_node.type_condition.name.value
+                if not isinstance(
+                    client_schema.get_type(on_type_name), GraphQLObjectType
+                ):
+                    raise NotImplementedError(
+                        "Inline fragments on non-object types are not supported"
+                    )
 
                 fields = []
                 for field in sub_node.selection_set.selections:
@@ -564,6 +581,11 @@ def generate_fragment(
                         )
                         continue
 
+                    if isinstance(field, InlineFragmentNode):
+                        raise NotImplementedError(
+                            "Inline fragments within inline fragments are not supported"
+                        )
+
                     if isinstance(field, FieldNode):
                         if field.name.value == "__typename":
                             continue
diff --git a/turms/recurse.py b/turms/recurse.py
index 36f707f..f2828e5 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -88,6 +88,57 @@ def unselected_members(
     ]
 
 
+def merge_member_selections(
+    type: GraphQLUnionType,
+    sub_nodes: List[FieldNode | SelectionNode],
+    registry: ClassRegistry,
+) -> List[FieldNode | SelectionNode]:
+    """Collects everything that is selected of the same union member in one node
+
+    A spread of a fragment on the union itself stays as it is when nothing else is
+    selected. Other fragments on abstract types select from each member they cover.
+    """
+    if len(sub_nodes) == 1 and isinstance(sub_nodes[0], FragmentSpreadNode):
+        if registry.get_fragment_type(sub_nodes[0].name.value) is type:
+            return sub_nodes
+
+    merged: Dict[str, SelectionNode] = {}
+    members = [member.name for member in type.types]
+
+    for sub_node in sub_nodes:
+        if isinstance(sub_node, InlineFragmentNode):
+            covered = [sub_node.type_condition.name.value]
+        elif isinstance(sub_node, FragmentSpreadNode):
+            classes = registry.get_abstract_fragment_classes(sub_node.name.value)
+            if classes is None:
+                covered = [registry.get_fragment_type(sub_node.name.value).name]
+            else:
+                covered = [member for member in members if member in classes]
+        else:
+            continue
+
+        for member in covered:
+            if member not in merged and (
+                isinstance(sub_node, InlineFragmentNode) or classes is None
+            ):
+                merged[member] = sub_node
+                continue
+
+            selections: List[SelectionNode] = []
+            for node in (merged.get(member), sub_node):
+                if isinstance(node, InlineFragmentNode):
+                    selections.extend(node.selection_set.selections)
+                elif node:
+                    selections.append(node)
+
+            merged[member] = InlineFragmentNode(
+                type_condition=NamedTypeNode(name=NameNode(value=member)),
+                selection_set=SelectionSetNode(selections=tuple(selections)),
+            )
+
+    return list(merged.values())
+
+
 def spread_catch_bases(
     type: GraphQLInterfaceType,
     sub_nodes: List[FieldNode | SelectionNode],
@@ -158,7 +209,7 @@ def recurse_annotation(
     if isinstance(type, GraphQLUnionType):
         union_class_names: List[str] = []
 
-        sub_nodes = non_typename_fields(node)
+        sub_nodes = merge_member_selections(type, non_typename_fields(node), registry)
         sub_nodes += unselected_members(type, sub_nodes, registry)
 
         for sub_node in sub_nodes:
@@ -200,6 +251,11 @@ def recurse_annotation(
                         )
                         continue
 
+                    if isinstance(sub_sub_node, InlineFragmentNode):
+                        raise NotImplementedError(
+                            "Inline fragments within inline fragments are not supported"
+                        )
+
                     if isinstance(sub_sub_node, FieldNode):
                         sub_sub_node_type = client_schema.get_type(
                             sub_node.type_condition.name.value
@@ -334,17 +390,15 @@ def recurse_annotation(
         for sub_node in sub_nodes:
             if isinstance(sub_node, FragmentSpreadNode):
                 # Spread nodes are like inheritance?
-                try:
-                    # We are dealing with a fragment that is an interface
-                    implementation_map = (
-                        registry.get_interface_fragment_implementations(
-                            sub_node.name.value
-                        )
-                    )
+                # We may be dealing with a fragment that is an interface or union
+                implementation_map = registry.get_abstract_fragment_classes(
+                    sub_node.name.value
+                )
+                if implementation_map is not None:
                     for k, v in implementation_map.items():
                         implementing_class_base_classes.setdefault(k, []).append(v)
 
-                except KeyError:
+                else:
                     x = registry.get_fragment_type(sub_node.name.value)
                     implementing_class_base_classes.setdefault(x.name, []).append(
                         registry.inherit_fragment(sub_node.name.value)
@@ -386,8 +440,10 @@ def recurse_annotation(
                         )
                         continue
 
-                    if not isinstance(field, FieldNode):
-                        continue
+                    if isinstance(field, InlineFragmentNode):
+                        raise NotImplementedError(
+                            "Inline fragments within inline fragments are not supported"
+                        )
 
                     if field.name.value == "__typename":
                         continue
diff --git a/turms/registry.py b/turms/registry.py
index 33a3e71..d19e5af 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -510,6 +510,17 @@ class ClassRegistry(object):
     def get_union_fragment_members(self, fragmentname: str):
         return self.unionfragment_members_map[fragmentname]
 
+    def get_abstract_fragment_classes(
+        self, fragmentname: str
+    ) -> Optional[Dict[str, str]]:
+        """The classes of a fragment on an interface or union by the object type
+
+        Returns None for fragments on object types.
+        """
+        if fragmentname in self.interfacefragments_impl_map:
+            return self.interfacefragments_impl_map[fragmentname]
+        return self.unionfragment_members_map.get(fragmentname)
+
     def get_fragment_type(self, fragmentname: str):
         return self.fragment_type_map[fragmentname]
 
@@ -545,7 +556,7 @@ class ClassRegistry(object):
         in both cases the caller should fall back to a plain fragment
         reference.
         """
-        implementation_map = self.interfacefragments_impl_map.get(fragmentname)
+        implementation_map = self.get_abstract_fragment_classes(fragmentname)
         if implementation_map is None:
             return None
         if typename in implementation_map:
-- 
2.43.0


From 774071698471264263b415dab8ba0167c6dcc791 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 05:24:28 +0000
Subject: [PATCH 72/74] fix: combine repeated selections of a field, select
 __typename where it is only aliased or conditional

---
 turms/plugins/fragments.py  |  7 ++--
 turms/plugins/operations.py |  3 +-
 turms/recurse.py            |  5 +--
 turms/utils.py              | 66 ++++++++++++++++++++++++++++++++-----
 4 files changed, 66 insertions(+), 15 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 617b45e..b88a2ad 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -33,6 +33,7 @@ from turms.utils import (
     get_object_bases,
     merge_bases_sequences,
     merge_body_sequences,
+    merged_selections,
     replace_iteratively,
     non_typename_fields,
     parse_documents,
@@ -266,7 +267,7 @@ def generate_fragment(
 
                 inline_fields = []
 
-                for field in sub_node.selection_set.selections:
+                for field in merged_selections(sub_node.selection_set):
                     if isinstance(field, FragmentSpreadNode):
                         implementation = (
                             registry.get_interface_fragment_implementation_or_none(
@@ -421,7 +422,7 @@ def generate_fragment(
 
         fields += [generate_typename_field(type.name, registry, config)]
 
-        for field in f.selection_set.selections:
+        for field in merged_selections(f.selection_set):
             if isinstance(field, FragmentDefinitionNode):  # pragma: no cover
                 continue
 
@@ -568,7 +569,7 @@ def generate_fragment(
                     )
 
                 fields = []
-                for field in sub_node.selection_set.selections:
+                for field in merged_selections(sub_node.selection_set):
                     if isinstance(field, FragmentSpreadNode):
                         implementation = (
                             registry.get_interface_fragment_implementation_or_none(
diff --git a/turms/plugins/operations.py b/turms/plugins/operations.py
index 05ab7ed..4d3a79f 100644
--- a/turms/plugins/operations.py
+++ b/turms/plugins/operations.py
@@ -25,6 +25,7 @@ from turms.utils import (
     inspect_operation_for_documentation,
     merge_bases_sequences,
     merge_body_sequences,
+    merged_selections,
     parse_documents,
     parse_value_node,
     recurse_type_annotation,
@@ -260,7 +261,7 @@ def generate_operation(
 
     operation_annotations: list[ast.AnnAssign] = []
 
-    for field_node in o.selection_set.selections:
+    for field_node in merged_selections(o.selection_set):
         if isinstance(field_node, FieldNode):
             field_definition = get_field_def(client_schema, x, field_node)
             assert field_definition, "Couldn't find field definition"
diff --git a/turms/recurse.py b/turms/recurse.py
index f2828e5..7d96cd2 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -23,6 +23,7 @@ from turms.utils import (
     get_object_bases,
     merge_bases_sequences,
     merge_body_sequences,
+    merged_selections,
     non_typename_fields,
     target_from_node,
 )
@@ -230,7 +231,7 @@ def recurse_annotation(
                         f"Inline fragments without selection sets are not supported. Please add a selection set to {inline_fragment_name}"
                     )
 
-                for sub_sub_node in sub_node.selection_set.selections:
+                for sub_sub_node in merged_selections(sub_node.selection_set):
                     if isinstance(sub_sub_node, FragmentSpreadNode):
                         if registry.is_interface_fragment(sub_sub_node.name.value):
                             raise Exception(
@@ -425,7 +426,7 @@ def recurse_annotation(
 
                 inline_fields = []
 
-                for field in sub_node.selection_set.selections:
+                for field in merged_selections(sub_node.selection_set):
                     if isinstance(field, FragmentSpreadNode):
                         implementation = (
                             registry.get_interface_fragment_implementation_or_none(
diff --git a/turms/utils.py b/turms/utils.py
index 842b5df..e290340 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -107,6 +107,60 @@ def target_from_node(node: FieldNode) -> str:
     )
 
 
+def is_typename(node: SelectionNode) -> bool:
+    """Checks if a selection is the plain __typename field (not aliased or conditional)"""
+    return (
+        isinstance(node, FieldNode)
+        and node.name.value == "__typename"
+        and (node.alias is None or node.alias.value == "__typename")
+        and not node.directives
+    )
+
+
+def merged_selections(selection_set: SelectionSetNode) -> List[SelectionNode]:
+    """Returns the selections of a selection set
+
+    Fields that are selected repeatedly (with a selection of their own each) are
+    combined in one field node that selects everything.
+    """
+    merged: List[SelectionNode] = []
+    position: Dict[str, int] = {}
+
+    for node in selection_set.selections:
+        if not isinstance(node, FieldNode) or not node.selection_set:
+            merged.append(node)
+            continue
+
+        target = target_from_node(node)
+        if target not in position:
+            position[target] = len(merged)
+            merged.append(node)
+            continue
+
+        first = merged[position[target]]
+        if [print_ast(x) for x in first.directives] != [
+            print_ast(x) for x in node.directives
+        ]:
+            raise NotImplementedError(
+                f"The field {target} is selected repeatedly with different directives"
+            )
+
+        merged[position[target]] = FieldNode(
+            alias=first.alias,
+            name=first.name,
+            arguments=first.arguments,
+            directives=first.directives,
+            selection_set=SelectionSetNode(
+                selections=(
+                    *first.selection_set.selections,
+                    *node.selection_set.selections,
+                )
+            ),
+        )
+
+    return merged
+
+
 def non_typename_fields(
     node: FieldNode | FragmentDefinitionNode,
 ) -> List[FieldNode | SelectionNode]:
@@ -115,7 +169,7 @@ def non_typename_fields(
         return []
     return [
         field
-        for field in node.selection_set.selections
+        for field in merged_selections(node.selection_set)
         if not (isinstance(field, FieldNode) and field.name.value == "__typename")
     ]
 
@@ -436,10 +490,7 @@ def add_typename_recursively(
 
     # Collect all existing fields in the selection set
     selections = list(selection_set.selections)
-    has_typename = any(
-        isinstance(field, FieldNode) and field.name.value == "__typename"
-        for field in selections
-    )
+    has_typename = any(is_typename(field) for field in selections)
 
     # Add __typename if it's not already present
     if not has_typename and not skip:
@@ -530,10 +581,7 @@ def auto_add_typename_field_to_fragment_str(fragment_str: str) -> str:
     for fragment in x.definitions:
         if isinstance(fragment, FragmentDefinitionNode):
             selections = list(fragment.selection_set.selections)
-            if not any(
-                isinstance(field, FieldNode) and field.name.value == "__typename"
-                for field in selections
-            ):
+            if not any(is_typename(field) for field in selections):
                 selections.append(
                     FieldNode(
                         name=NameNode(value="__typename"),
-- 
2.43.0


From b69ffef054a9f22fcd7f7ad276c7a1f2f6f66e91 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 05:25:12 +0000
Subject: [PATCH 73/74] fix: document functions returning abstract types
 selected by fragments on other abstract types

---
 turms/plugins/funcs.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 17b84fd..db2d37f 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -764,11 +764,14 @@ def get_return_type_annotation(
             if isinstance(
                 collapsable_fragment_field, FragmentSpreadNode
             ):  # Dealing with a on element fragment
+                named_type = get_named_type(field_definition.type)
                 implementation = (
                     registry.get_interface_fragment_implementation_or_none(
                         collapsable_fragment_field.name.value,
-                        get_named_type(field_definition.type).name,
+                        named_type.name,
                     )
+                    if isinstance(named_type, GraphQLObjectType)
+                    else None
                 )
                 overwrite_final = (
                     implementation
@@ -828,11 +831,14 @@ def get_return_type_string(
             if isinstance(
                 collapsable_fragment_field, FragmentSpreadNode
             ):  # Dealing with a on element fragment
+                named_type = get_named_type(potential_return_type.type)
                 implementation = (
                     registry.get_interface_fragment_implementation_or_none(
                         collapsable_fragment_field.name.value,
-                        get_named_type(potential_return_type.type).name,
+                        named_type.name,
                     )
+                    if isinstance(named_type, GraphQLObjectType)
+                    else None
                 )
                 overwrite_final = (
                     implementation
-- 
2.43.0


From 37c0b48a06e5892594f0f1ccfd2f7e60cdf0d01b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 07:11:06 +0000
Subject: [PATCH 74/74] fix: keep generated classes and functions from
 replacing what modules import

---
 turms/plugins/funcs.py       |  8 +++--
 turms/plugins/input_funcs.py |  4 ++-
 turms/plugins/strawberry.py  |  2 ++
 turms/registry.py            | 58 ++++++++++++++++++++----------------
 4 files changed, 43 insertions(+), 29 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index db2d37f..5f41637 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -116,7 +116,9 @@ def generate_async_func_name(
 ):
     if not o.name:
         raise Exception("Operation name is None")
-    return f"{plugin_config.prepend_async}{camel_to_snake(o.name.value)}"
+    return registry.to_module_name(
+        f"{plugin_config.prepend_async}{camel_to_snake(o.name.value)}"
+    )
 
 
 def generate_sync_func_name(
@@ -127,7 +129,9 @@ def generate_sync_func_name(
 ):
     if not o.name:  # pragma: no cover
         raise Exception("Operation name is None")
-    return f"{plugin_config.prepend_sync}{camel_to_snake(o.name.value)}"
+    return registry.to_module_name(
+        f"{plugin_config.prepend_sync}{camel_to_snake(o.name.value)}"
+    )
 
 
 def get_extra_args_for_onode(
diff --git a/turms/plugins/input_funcs.py b/turms/plugins/input_funcs.py
index 4b41671..47ac2a8 100644
--- a/turms/plugins/input_funcs.py
+++ b/turms/plugins/input_funcs.py
@@ -59,7 +59,9 @@ def generate_input_func(
     """Builds a factory function that constructs and returns the input model."""
     class_name = registry.get_inputtype_class(typename)
 
-    func_name = plugin_config.prepend + registry.style_parameter_name(typename)
+    func_name = registry.to_module_name(
+        plugin_config.prepend + registry.style_parameter_name(typename)
+    )
     if func_name == class_name:
         # Avoid shadowing the model class (would make the body call itself).
         func_name += "_"
diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 9937aff..99b7202 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -330,6 +330,7 @@ def default_generate_directives(
         return []
 
     registry.register_import("strawberry.schema_directive.Location")
+    registry.module_names.add("Location")
 
     for directive in generatable_directives:
         if plugin_config.skip_underscore and directive.name.startswith("_"):
@@ -1407,6 +1408,7 @@ class StrawberryPlugin(Plugin):
         registry: ClassRegistry,
     ) -> List[ast.AST]:
         registry.register_import("strawberry")
+        registry.module_names |= {"strawberry", "AsyncGenerator", "NewType"}
 
         directives = (
             self.config.generate_directives_func(
diff --git a/turms/registry.py b/turms/registry.py
index d19e5af..4545b2e 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -242,6 +242,20 @@ FIELD_ANNOTATION_NAMES = {
     "WrapSerializer",
 }
 
+# the other names that generated modules import or define at their top, where a class
+# of the same name would replace them
+MODULE_NAMES = FIELD_ANNOTATION_NAMES | {
+    "AsyncIterator",
+    "BaseModel",
+    "ConfigDict",
+    "Dict",
+    "Enum",
+    "Iterable",
+    "Iterator",
+    "UNSET",
+    "UnsetType",
+}
+
 
 def shadows_model_attribute(field_name: str) -> bool:
     """Whether pydantic would take its own attribute of this name (``schema``, ``json``,
@@ -270,9 +284,12 @@ class ClassRegistry(object):
             **config.scalar_definitions,
         }
         # names that would mean the field itself to the fields declared after it
-        self.field_annotation_names: Set[str] = FIELD_ANNOTATION_NAMES | {
+        scalar_names = {
             python_type.split(".")[-1] for python_type in self.scalar_map.values()
         }
+        self.field_annotation_names: Set[str] = FIELD_ANNOTATION_NAMES | scalar_names
+        # names that would mean the class itself to all annotations after it
+        self.module_names: Set[str] = MODULE_NAMES | scalar_names
         # map of fragment typename to the strinigify graphql document
         self.fragment_document_map: Dict[str, str] = {}
 
@@ -316,12 +333,15 @@ class ClassRegistry(object):
             else None
         )
 
+    def to_module_name(self, name: str):
+        """The name for a class or function of the generated module that must neither be
+        a keyword nor replace what the module imports."""
+        return name + "_" if iskeyword(name) or name in self.module_names else name
+
     def style_inputtype_class(self, typename: str):
         for styler in self.stylers:
             typename = styler.style_input_name(typename)
-        if iskeyword(typename):
-            typename += "_"
-        return typename
+        return self.to_module_name(typename)
 
     def generate_inputtype(self, typename: str):
         assert typename not in self.inputtype_class_map, (
@@ -350,9 +370,7 @@ class ClassRegistry(object):
     def style_enum_class(self, typename: str):
         for styler in self.stylers:
             typename = styler.style_enum_name(typename)
-        if iskeyword(typename):
-            typename += "_"
-        return typename
+        return self.to_module_name(typename)
 
     def generate_enum(self, typename: str):
         assert typename not in self.enum_class_map, (
@@ -373,7 +391,7 @@ class ClassRegistry(object):
     def reference_enum(
         self, typename: str, parent: str, allow_forward: bool = True
     ) -> ast.Constant | ast.Name:
-        if typename in built_in_map:
+        if typename.startswith("__") and typename in built_in_map:
             # Builtin enums
             self._builtins.add(typename)
             self.forward_references.add(parent)
@@ -392,9 +410,7 @@ class ClassRegistry(object):
     def style_objecttype_class(self, typename: str):
         for styler in self.stylers:
             typename = styler.style_object_name(typename)
-        if iskeyword(typename):
-            typename += "_"
-        return typename
+        return self.to_module_name(typename)
 
     def generate_objecttype(self, typename: str):
         assert typename not in self.object_class_map, (
@@ -438,9 +454,7 @@ class ClassRegistry(object):
     def style_interface_class(self, typename: str):
         for styler in self.stylers:
             typename = styler.style_object_name(typename)
-        if iskeyword(typename):
-            typename += "_"
-        return typename
+        return self.to_module_name(typename)
 
     def generate_interface(self, typename: str, with_base: bool = True):
         assert typename not in self.interface_baseclass_map, (
@@ -472,9 +486,7 @@ class ClassRegistry(object):
     def style_fragment_class(self, typename: str):
         for styler in self.stylers:
             typename = styler.style_fragment_name(typename)
-        if iskeyword(typename):
-            typename += "_"
-        return typename
+        return self.to_module_name(typename)
 
     def generate_fragment(self, fragmentname: str, is_interface: bool = False):
         assert fragmentname not in self.fragment_class_map, (
@@ -622,9 +634,7 @@ class ClassRegistry(object):
     def style_query_class(self, typename: str):
         for styler in self.stylers:
             typename = styler.style_query_name(typename)
-        if iskeyword(typename):
-            typename += "_"
-        return typename
+        return self.to_module_name(typename)
 
     def generate_query(self, typename: str):
         assert typename not in self.query_class_map, (
@@ -649,9 +659,7 @@ class ClassRegistry(object):
     def style_mutation_class(self, typename: str):
         for styler in self.stylers:
             typename = styler.style_mutation_name(typename)
-        if iskeyword(typename):
-            typename += "_"
-        return typename
+        return self.to_module_name(typename)
 
     def generate_mutation(self, typename: str):
         assert typename not in self.mutation_class_map, (
@@ -676,9 +684,7 @@ class ClassRegistry(object):
     def style_subscription_class(self, typename: str):
         for styler in self.stylers:
             typename = styler.style_subscription_name(typename)
-        if iskeyword(typename):
-            typename += "_"
-        return typename
+        return self.to_module_name(typename)
 
     def generate_subscription(self, typename: str):
         assert typename not in self.subscription_class_map, (
-- 
2.43.0

