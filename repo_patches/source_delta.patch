From f9dd871e41f0edd09ff84c148d1cc4d83ea48152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 01/31] fix: keep check_integrity imports local to the program
 being compiled

RewriteImportIntegrityCheck registered the imported name in the global
INITIAL_SCOPE: a second compilation in the same process saw names that it
never imported and rejected aliased imports as reserved names.
---
 opshin/rewrite/rewrite_function_closures.py   | 18 ++++++++++++----
 .../rewrite/rewrite_import_integrity_check.py | 21 ++++++++++++-------
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/opshin/rewrite/rewrite_function_closures.py b/opshin/rewrite/rewrite_function_closures.py
index 3a39f8e..a6d9c60 100644
--- a/opshin/rewrite/rewrite_function_closures.py
+++ b/opshin/rewrite/rewrite_function_closures.py
@@ -2,7 +2,12 @@ from ast import *
 from copy import copy
 from typing import Optional
 
-from ..type_impls import CLOSURE_PLACEHOLDER, FunctionType, InstanceType
+from ..type_impls import (
+    CLOSURE_PLACEHOLDER,
+    FunctionType,
+    InstanceType,
+    PolymorphicFunctionInstanceType,
+)
 from ..rewrite.rewrite_cast_condition import SPECIAL_BOOL
 from ..type_inference import INITIAL_SCOPE, union_types
 from ..typed_util import (
@@ -197,9 +202,14 @@ class RewriteFunctionClosures(ScopedSequenceNodeTransformer):
                 and name not in INITIAL_SCOPE
                 and not name.startswith(SPECIAL_BOOL)
             }
-            direct_external_bound_vars[function_id] = self._collect_external_name_types(
-                function, direct_external_names
-            )
+            direct_external_bound_vars[function_id] = {
+                name: typ
+                for name, typ in self._collect_external_name_types(
+                    function, direct_external_names
+                ).items()
+                # polymorphic functions are generated in place, there is no value to bind
+                if not isinstance(typ, PolymorphicFunctionInstanceType)
+            }
             direct_bind_self[function_id] = function.name in read_vars(function)
             direct_required_names[function_id] = set(
                 direct_external_bound_vars[function_id]
diff --git a/opshin/rewrite/rewrite_import_integrity_check.py b/opshin/rewrite/rewrite_import_integrity_check.py
index c83a403..d7c514c 100644
--- a/opshin/rewrite/rewrite_import_integrity_check.py
+++ b/opshin/rewrite/rewrite_import_integrity_check.py
@@ -1,6 +1,5 @@
 import typing
-from _ast import ImportFrom, AST
-from typing import Optional
+from ast import AST, Assign, ImportFrom, Name, Store
 import pluthon as plt
 
 from ..type_impls import (
@@ -50,21 +49,29 @@ class IntegrityCheckImpl(PolymorphicFunction):
         )
 
 
+INTEGRITY_CHECK_TYPE = InstanceType(PolymorphicFunctionType(IntegrityCheckImpl()))
+
+
 class RewriteImportIntegrityCheck(CompilingNodeTransformer):
     step = "Resolving imports and usage of integrity check"
 
-    def visit_ImportFrom(self, node: ImportFrom) -> Optional[AST]:
+    def visit_ImportFrom(self, node: ImportFrom) -> typing.Union[AST, typing.List[AST]]:
         if node.module != "opshin.std.integrity":
             return node
+        additional_assigns = []
         for n in node.names:
             assert (
                 n.name == FunctionName
             ), "Imports something other from the integrity check than the integrity check builtin"
             renamed = n.asname if n.asname is not None else n.name
             assert (
-                renamed not in INITIAL_SCOPE or renamed == FunctionName
+                renamed not in INITIAL_SCOPE
             ), f"Name '{renamed}' is a reserved name, cannot import {FunctionName} with that name."
-            INITIAL_SCOPE[renamed] = InstanceType(
-                PolymorphicFunctionType(IntegrityCheckImpl())
+            # bind the name in the importing program only, the scope shared by all programs must not change
+            additional_assigns.append(
+                Assign(
+                    targets=[Name(id=renamed, typ=INTEGRITY_CHECK_TYPE, ctx=Store())],
+                    value=RawPlutoExpr(typ=INTEGRITY_CHECK_TYPE, expr=plt.Unit()),
+                )
             )
-        return None
+        return additional_assigns
-- 
2.43.0


From c764e2cff07d58e555ce49b6de1007eb293b5412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 02/31] fix: do not fold expressions whose value differs
 between compiler runs

Constant folding evaluated hash, id, open, input, object, dir, vars, set
displays and the default repr of functions at compile time, so the script
depended on the hash seed, on memory addresses and on local files.
---
 opshin/optimize/optimize_const_folding.py | 75 ++++++++++++++++++-----
 1 file changed, 61 insertions(+), 14 deletions(-)

diff --git a/opshin/optimize/optimize_const_folding.py b/opshin/optimize/optimize_const_folding.py
index 97006c9..84b85f8 100644
--- a/opshin/optimize/optimize_const_folding.py
+++ b/opshin/optimize/optimize_const_folding.py
@@ -1,3 +1,4 @@
+import builtins
 import typing
 from collections import defaultdict
 import logging
@@ -39,23 +40,16 @@ SAFE_GLOBALS_LIST = [
     callable,
     chr,
     classmethod,
-    compile,
     complex,
-    delattr,
     dict,
-    dir,
     divmod,
     enumerate,
     filter,
     float,
     format,
-    frozenset,
     getattr,
     hasattr,
-    hash,
     hex,
-    id,
-    input,
     int,
     isinstance,
     issubclass,
@@ -66,9 +60,7 @@ SAFE_GLOBALS_LIST = [
     max,
     min,
     next,
-    object,
     oct,
-    open,
     ord,
     pow,
     print,
@@ -77,8 +69,6 @@ SAFE_GLOBALS_LIST = [
     repr,
     reversed,
     round,
-    set,
-    setattr,
     slice,
     sorted,
     staticmethod,
@@ -87,11 +77,48 @@ SAFE_GLOBALS_LIST = [
     super,
     tuple,
     type,
-    vars,
     zip,
 ]
 SAFE_GLOBALS = {x.__name__: x for x in SAFE_GLOBALS_LIST}
 
+# The outcome of these depends on the process that runs the compiler (hash seed, memory layout, files,
+# terminal) or changes it, so they must not be evaluated at compile time.
+UNREPRODUCIBLE_BUILTINS = [
+    "breakpoint",
+    "compile",
+    "delattr",
+    "dir",
+    "eval",
+    "exec",
+    "exit",
+    "frozenset",
+    "globals",
+    "hash",
+    "help",
+    "id",
+    "input",
+    "locals",
+    "object",
+    "open",
+    "quit",
+    "set",
+    "setattr",
+    "vars",
+]
+REPRODUCIBLE_BUILTINS = {
+    k: v for k, v in vars(builtins).items() if k not in UNREPRODUCIBLE_BUILTINS
+}
+
+
+def is_reproducible_node(node: AST) -> bool:
+    """Whether evaluating the node can not depend on the iteration order of a set"""
+    return not any(isinstance(n, (Set, SetComp)) for n in walk(node))
+
+
+def is_reproducible_value(value: typing.Any) -> bool:
+    """Whether the value does not contain the memory address of an object, as in '<function f at 0x7f...>'"""
+    return " at 0x" not in repr(value)
+
 
 class ShallowNameDefCollector(CompilingNodeVisitor):
     step = "Collecting occurring variable names"
@@ -215,9 +242,12 @@ class OptimizeConstantFolding(CompilingNodeTransformer):
             k: (v if k not in overwritten_vars else err)
             for k, v in SAFE_GLOBALS.items()
         }
+        non_overwritten_globals["__builtins__"] = REPRODUCIBLE_BUILTINS
         return non_overwritten_globals
 
     def update_constants(self, node):
+        if not is_reproducible_node(node):
+            return
         a = self._non_overwritten_globals()
         a.update(self._constant_vars())
         g = a
@@ -228,7 +258,14 @@ class OptimizeConstantFolding(CompilingNodeTransformer):
             OPSHIN_LOGGER.debug(e)
         else:
             # the class is defined and added to the globals
-            self.scopes_constants[-1].update(l)
+            self.scopes_constants[-1].update(
+                {
+                    k: v
+                    for k, v in l.items()
+                    if not isinstance(v, (str, bytes, list, dict, tuple))
+                    or is_reproducible_value(v)
+                }
+            )
 
     def visit_Module(self, node: Module) -> Module:
         self.enter_scope()
@@ -249,7 +286,7 @@ class OptimizeConstantFolding(CompilingNodeTransformer):
 
     def visit_FunctionDef(self, node: FunctionDef) -> FunctionDef:
         self.add_var_visible(node.name)
-        if node.name in self.constants:
+        if node.name in self.constants and is_reproducible_node(node):
             a = self._non_overwritten_globals()
             a.update(self._constant_vars())
             g = a
@@ -313,9 +350,16 @@ class OptimizeConstantFolding(CompilingNodeTransformer):
 
     def generic_visit(self, node: AST):
         node = super().generic_visit(node)
+        if any(getattr(n, "unreproducible", False) for n in iter_child_nodes(node)):
+            # part of this evaluates to something else for every run of the compiler
+            node.unreproducible = True
+            return node
         if not isinstance(node, expr):
             # only evaluate expressions, not statements
             return node
+        if isinstance(node, (Set, SetComp)):
+            node.unreproducible = True
+            return node
         if isinstance(node, Constant):
             # prevents unnecessary computations
             return node
@@ -340,6 +384,9 @@ class OptimizeConstantFolding(CompilingNodeTransformer):
             isinstance(node_eval, t)
             for t in ACCEPTED_ATOMIC_TYPES + [list, dict, PlutusData]
         ) and not (node_eval == [] or node_eval == {}):
+            if not is_reproducible_value(node_eval):
+                node.unreproducible = True
+                return node
             new_node = Constant(node_eval, None)
             copy_location(new_node, node)
             return new_node
-- 
2.43.0


From ed58f92de11de3468d8e0f78ff48484cb174c099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 03/31] fix: resolve imports to the files of the project,
 independent of process state

Imports were looked up in sys.modules first and executed as modules, so a
program could pick up the helper of another project compiled earlier or an
outdated or half-executed one, and a failing import left sys.path changed.
---
 opshin/rewrite/rewrite_import.py | 113 +++++++++++++++++++------------
 1 file changed, 70 insertions(+), 43 deletions(-)

diff --git a/opshin/rewrite/rewrite_import.py b/opshin/rewrite/rewrite_import.py
index 052d40b..bfd0405 100644
--- a/opshin/rewrite/rewrite_import.py
+++ b/opshin/rewrite/rewrite_import.py
@@ -15,39 +15,68 @@ Checks that there was an import of dataclass if there are any class definitions
 """
 
 
-def import_module(name, package=None):
-    """An approximate implementation of import."""
-    absolute_name = importlib.util.resolve_name(name, package)
-    try:
-        return sys.modules[absolute_name]
-    except KeyError:
-        pass
-
-    path = None
-    spec = None
-    error_msg = None
-    try:
-        if "." in absolute_name:
-            parent_name, _, child_name = absolute_name.rpartition(".")
-            parent_module = import_module(parent_name)
-            path = parent_module.__spec__.submodule_search_locations
-        for finder in sys.meta_path:
-            spec = finder.find_spec(absolute_name, path)
-            if spec is not None:
-                break
-    except (ImportError, AttributeError) as e:
-        error_msg = str(e)
-    if spec is None:
-        msg = f"No module named {absolute_name!r}"
-        if error_msg:
-            msg += f"; {error_msg}"
-        raise ModuleNotFoundError(msg, name=absolute_name)
-    module = importlib.util.module_from_spec(spec)
-    sys.modules[absolute_name] = module
-    spec.loader.exec_module(module)
-    if path is not None:
-        setattr(parent_module, child_name, module)
-    return module
+def find_in_directory(
+    directory: pathlib.Path, parts: typing.List[str]
+) -> typing.Optional[pathlib.Path]:
+    """Find the file of a (dotted) module relative to a directory, in the order of preference of python"""
+    *packages, module = parts
+    for package in packages:
+        if not (directory / package / "__init__.py").is_file() and (
+            (directory / f"{package}.py").is_file()
+        ):
+            return None
+        directory = directory / package
+    for candidate in (directory / module / "__init__.py", directory / f"{module}.py"):
+        if candidate.is_file():
+            return candidate
+    return None
+
+
+def find_module_file(
+    name: str,
+    level: int = 0,
+    root: typing.Optional[pathlib.Path] = None,
+    importer: typing.Optional[pathlib.Path] = None,
+) -> pathlib.Path:
+    """
+    Find the file that an import refers to, without executing any module and independent of modules already loaded.
+
+    root: the directory of the contract, searched first, like python does for scripts
+    importer: the directory of the file containing the import, anchor for relative imports and last resort otherwise
+    """
+    parts = name.split(".")
+    if level > 0:
+        anchor = importer
+        for _ in range(level - 1):
+            anchor = anchor and anchor.parent
+        module_file = anchor and find_in_directory(anchor, parts)
+        if module_file is None:
+            raise ModuleNotFoundError(
+                f"No module named {'.' * level + name!r}", name=name
+            )
+        return module_file
+    # no contract can replace the library
+    if root is not None and parts[0] != "opshin":
+        module_file = find_in_directory(root, parts)
+        if module_file is not None:
+            return module_file
+    importlib.invalidate_caches()
+    for finder in sys.meta_path:
+        spec = finder.find_spec(parts[0], None)
+        if spec is not None:
+            break
+    if spec is not None and len(parts) == 1 and spec.has_location:
+        return pathlib.Path(spec.origin)
+    if spec is not None and len(parts) > 1:
+        for location in spec.submodule_search_locations or []:
+            module_file = find_in_directory(pathlib.Path(location), parts[1:])
+            if module_file is not None:
+                return module_file
+    if importer is not None and parts[0] != "opshin":
+        module_file = find_in_directory(importer, parts)
+        if module_file is not None:
+            return module_file
+    raise ModuleNotFoundError(f"No module named {name!r}", name=name)
 
 
 class RewriteLocation(CompilingNodeTransformer):
@@ -73,9 +102,11 @@ SPECIAL_IMPORTS = [
 class RewriteImport(CompilingNodeTransformer):
     step = "Resolving imports"
 
-    def __init__(self, filename=None, package=None, resolved_imports=None):
+    def __init__(self, filename=None, root=None, resolved_imports=None):
         self.filename = filename
-        self.package = package
+        self.importer = pathlib.Path(filename).parent.absolute() if filename else None
+        # all files of a program are searched starting from the directory of the contract
+        self.root = root or self.importer
         self.resolved_imports = resolved_imports or OrderedSet()
 
     def visit_Import(self, node):
@@ -91,13 +122,9 @@ class RewriteImport(CompilingNodeTransformer):
         assert len(node.names) == 1, error_msg
         assert node.names[0].name == "*", error_msg
         assert node.names[0].asname == None, error_msg
-        # TODO set anchor point according to own package
-        if self.filename:
-            sys.path.append(str(pathlib.Path(self.filename).parent.absolute()))
-        module = import_module(node.module, self.package)
-        if self.filename:
-            sys.path.pop()
-        module_file = pathlib.Path(module.__file__)
+        module_file = find_module_file(
+            node.module, node.level, root=self.root, importer=self.importer
+        )
         if module_file.suffix == ".pyc":
             module_file = module_file.with_suffix(".py")
         if module_file in self.resolved_imports:
@@ -116,7 +143,7 @@ class RewriteImport(CompilingNodeTransformer):
         # recursively import all statements there
         recursive_resolver = RewriteImport(
             filename=str(module_file),
-            package=module.__package__,
+            root=self.root,
             resolved_imports=self.resolved_imports,
         )
         recursively_resolved: Module = recursive_resolver.visit(resolved)
-- 
2.43.0


From 7ac1da3bed3f52035cb96b95cfc1dbc0b393bdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 04/31] fix: do not reuse a cached compilation of a program
 that imports other files

The cache key holds the source of the contract only, so an edit of an
imported file (or a change of the working directory) was ignored.
---
 opshin/builder.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/opshin/builder.py b/opshin/builder.py
index 697379c..f6e6096 100644
--- a/opshin/builder.py
+++ b/opshin/builder.py
@@ -1,3 +1,4 @@
+import ast
 import copy
 import dataclasses
 import enum
@@ -21,6 +22,7 @@ from pluthon import compile as plt_compile
 
 from .util import datum_to_cbor, get_class_annotations, set_class_annotations
 from .compiler_config import DEFAULT_CONFIG
+from .rewrite.rewrite_import import SPECIAL_IMPORTS
 
 
 class Purpose(enum.Enum):
@@ -224,6 +226,23 @@ def _static_compile(
     return code
 
 
+def _imports_other_files(source_code: str) -> bool:
+    """
+    Whether the program includes files that are not part of opshin
+    """
+    try:
+        source_ast = ast.parse(source_code)
+    except (SyntaxError, ValueError):
+        # does not compile either way
+        return False
+    return any(
+        isinstance(node, ast.ImportFrom)
+        and node.module not in SPECIAL_IMPORTS
+        and not (node.module or "").startswith("opshin.")
+        for node in ast.walk(source_ast)
+    )
+
+
 def _compile(
     source_code: str,
     *args: typing.Union[pycardano.Datum, uplc_ast.Constant],
@@ -235,7 +254,13 @@ def _compile(
     Expects a python module and returns the build artifacts from compiling it
     """
 
-    code = _static_compile(
+    # the content of other files may change in between two calls
+    static_compile = (
+        _static_compile.__wrapped__
+        if _imports_other_files(source_code)
+        else _static_compile
+    )
+    code = static_compile(
         source_code,
         contract_file=contract_file,
         validator_function_name=validator_function_name,
-- 
2.43.0


From 2f99424624fa0dbba5c7e9d446ea3e5540af74c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 05/31] fix: keep the license of a contract when parameters are
 applied

---
 opshin/builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opshin/builder.py b/opshin/builder.py
index f6e6096..0737eb4 100644
--- a/opshin/builder.py
+++ b/opshin/builder.py
@@ -169,6 +169,7 @@ class PlutusContract:
             self.version,
             self.title,
             self.description,
+            self.license,
         )
         return new_contract
 
-- 
2.43.0


From 39fec82234482f0b509adfc67abe1b780712c3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 06/31] fix: load every artifact that dump writes, whatever the
 order of the directory

Blueprints without datum, redeemer or parameters lost all their metadata,
script.cbor loaded to an unwrapped script, and subdirectories, binary files
or script.policy_id next to the script could make load fail or pick them.
---
 opshin/builder.py | 114 +++++++++++++++++++++++++++++-----------------
 1 file changed, 71 insertions(+), 43 deletions(-)

diff --git a/opshin/builder.py b/opshin/builder.py
index 0737eb4..bed2aac 100644
--- a/opshin/builder.py
+++ b/opshin/builder.py
@@ -4,6 +4,7 @@ import dataclasses
 import enum
 import functools
 import inspect
+import io
 import json
 import typing
 from ast import Module
@@ -450,6 +451,20 @@ def _apply_parameters(script: uplc.ast.Program, *args: pycardano.Datum):
     return code
 
 
+def _unwrap_cbor(wrapped: bytes) -> Optional[bytes]:
+    """
+    Returns the content of a CBOR bytestring, None if the input is anything but a single complete bytestring
+    """
+    fp = io.BytesIO(wrapped)
+    try:
+        unwrapped = cbor2.load(fp)
+    except Exception:
+        return None
+    if not isinstance(unwrapped, bytes) or fp.read():
+        return None
+    return unwrapped
+
+
 def load(contract_path: Union[Path, str]) -> PlutusContract:
     """
     Load a contract from a file or directory and generate the artifacts
@@ -457,48 +472,60 @@ def load(contract_path: Union[Path, str]) -> PlutusContract:
     if isinstance(contract_path, str):
         contract_path = Path(contract_path)
     if contract_path.is_dir():
-        contract_candidates = list(contract_path.iterdir())
+        # the order of files in a directory is arbitrary
+        contract_files = sorted(p for p in contract_path.iterdir() if p.is_file())
     elif contract_path.is_file():
-        contract_candidates = [contract_path]
+        contract_files = [contract_path]
     else:
         raise ValueError(
             f"Invalid contract path, is neither file nor directory: {contract_path}"
         )
-    for contract_file in contract_candidates:
-        with contract_file.open("r") as f:
-            contract_content = f.read()
+    contract_candidates = []
+    for contract_file in contract_files:
+        with contract_file.open("r", encoding="utf-8") as f:
+            try:
+                contract_candidates.append(f.read())
+            except UnicodeDecodeError:
+                # not a contract in any of the supported formats
+                pass
+    for contract_content in contract_candidates:
         # could be a plutus blueprint
         try:
             contract = json.loads(contract_content)
-            if "validators" in contract:
+            if isinstance(contract, dict) and "validators" in contract:
                 assert len(contract["validators"]) == 1, "Only one validator supported"
                 validator = contract["validators"][0]
                 # TODO this should be controlled by the version in the preamble
                 contract_cbor = PlutusV3Script(bytes.fromhex(validator["compiledCode"]))
-                datum_type = (
-                    validator["datum"]["title"],
-                    from_plutus_schema(validator["datum"]["schema"]),
-                )
-                redeemer_type = (
-                    validator["redeemer"]["title"],
-                    from_plutus_schema(validator["redeemer"]["schema"]),
-                )
+                datum_type = redeemer_type = None
+                if validator.get("datum"):
+                    datum_type = (
+                        validator["datum"]["title"],
+                        from_plutus_schema(validator["datum"]["schema"]),
+                    )
+                purpose = [Purpose.any]
+                if validator.get("redeemer"):
+                    redeemer_type = (
+                        validator["redeemer"]["title"],
+                        from_plutus_schema(validator["redeemer"]["schema"]),
+                    )
+                    if "oneOf" in validator["redeemer"]["purpose"]:
+                        purpose = [
+                            k
+                            for p in validator["redeemer"]["purpose"]["oneOf"]
+                            for k, v in PURPOSE_MAP.items()
+                            if v == p
+                        ]
+                    else:
+                        purpose = [
+                            k
+                            for k, v in PURPOSE_MAP.items()
+                            if v == validator["redeemer"]["purpose"]
+                        ]
                 parameter_types = [
                     (p["title"], from_plutus_schema(p["schema"]))
-                    for p in validator["parameters"]
+                    for p in validator.get("parameters", [])
                 ]
-                if "oneOf" in validator["redeemer"]["purpose"]:
-                    purpose = [
-                        k
-                        for k, v in PURPOSE_MAP.items()
-                        if v in validator["redeemer"]["purpose"]["oneOf"]
-                    ]
-                else:
-                    purpose = [
-                        k
-                        for k, v in PURPOSE_MAP.items()
-                        if v == validator["redeemer"]["purpose"]
-                    ]
                 version = contract["preamble"].get("version")
                 title = contract["preamble"].get("title")
                 description = contract["preamble"].get("description")
@@ -520,34 +547,35 @@ def load(contract_path: Union[Path, str]) -> PlutusContract:
         except (ValueError, KeyError) as e:
             pass
     contract_cbor = None
-    for contract_file in contract_candidates:
-        with contract_file.open("r") as f:
-            contract_content = f.read()
+    for contract_content in contract_candidates:
         # could be a singly wrapped cbor hex
         try:
-            # try to unwrap to see if it is cbor
-            contract_cbor_unwrapped = cbor2.loads(bytes.fromhex(contract_content))
-            contract_cbor = bytes.fromhex(contract_content)
-            # if we can unwrap again, its doubly wrapped
-            try:
-                cbor2.loads(contract_cbor_unwrapped)
-                contract_cbor = contract_cbor_unwrapped
-            except ValueError:
-                pass
-            break
+            wrapped = bytes.fromhex(contract_content)
         except ValueError:
             pass
+        else:
+            unwrapped = _unwrap_cbor(wrapped)
+            if unwrapped is None:
+                continue
+            # if we can unwrap again, its doubly wrapped
+            contract_cbor = wrapped if _unwrap_cbor(unwrapped) is None else unwrapped
+            break
         # could be a plutus json
         try:
             contract = json.loads(contract_content)
-            contract_cbor = cbor2.loads(bytes.fromhex(contract["cborHex"]))
-        except (ValueError, KeyError):
+            wrapped = _unwrap_cbor(bytes.fromhex(contract["cborHex"]))
+        except (ValueError, KeyError, TypeError):
             pass
+        else:
+            if wrapped is not None and _unwrap_cbor(wrapped) is not None:
+                contract_cbor = wrapped
+                break
         # could be uplc
         try:
             contract_ast = uplc.parse(contract_content)
             contract_cbor = uplc.flatten(contract_ast)
-        except:
+            break
+        except Exception:
             pass
     if contract_cbor is None:
         raise ValueError(f"Could not load contract from file {contract_path}")
-- 
2.43.0


From 076dc6a2e2d05aa9ca92bb05094c371fcfc5630a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 07/31] fix: parse command line arguments repeatedly in one
 process

---
 opshin/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opshin/__main__.py b/opshin/__main__.py
index e855ab9..56c4374 100644
--- a/opshin/__main__.py
+++ b/opshin/__main__.py
@@ -521,6 +521,8 @@ def parse_args():
         type=int,
     )
     for k, v in ARGPARSE_ARGS.items():
+        # the options are shared with later calls
+        v = v.copy()
         alts = v.pop("__alts__", [])
         type = v.pop("type", None)
         if type is None:
-- 
2.43.0


From b52806dce34693b3bacadfd24127e1f4f8a4c259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 08/31] fix: do not share available names between compilations
 when removing constants

---
 opshin/optimize/optimize_remove_deadconstants.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/opshin/optimize/optimize_remove_deadconstants.py b/opshin/optimize/optimize_remove_deadconstants.py
index 1dc31ad..5b14b4c 100644
--- a/opshin/optimize/optimize_remove_deadconstants.py
+++ b/opshin/optimize/optimize_remove_deadconstants.py
@@ -39,9 +39,10 @@ class SafeOperationVisitor(CompilingNodeVisitor):
 class OptimizeRemoveDeadConstants(CompilingNodeTransformer):
     step = "Removing dead expressions"
 
-    guaranteed_avail_names = [
-        list(INITIAL_SCOPE.keys()) + ["isinstance", "Union", "Dict", "List"]
-    ]
+    def __init__(self):
+        self.guaranteed_avail_names = [
+            list(INITIAL_SCOPE.keys()) + ["isinstance", "Union", "Dict", "List"]
+        ]
 
     def enter_scope(self):
         self.guaranteed_avail_names.append([])
-- 
2.43.0


From 2fda10f34638f654acdbb9a2049a882f597fe530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 09/31] fix: report the position of log messages for the
 program being compiled

The position was shared by all threads, kept from earlier programs, and
logging after visiting a node without position raised an AttributeError.
---
 opshin/util.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/opshin/util.py b/opshin/util.py
index a0e8a5e..6ed277a 100644
--- a/opshin/util.py
+++ b/opshin/util.py
@@ -1,5 +1,6 @@
 import inspect
 import sys
+import threading
 import traceback
 from _ast import Name, Store, ClassDef, FunctionDef, Load
 from collections import defaultdict
@@ -33,7 +34,24 @@ class FileContextFilter(logging.Filter):
     """
 
     file_name = "unknown"
-    node: ast.AST = None
+
+    def __init__(self):
+        super().__init__()
+        # every thread may be compiling a different program
+        self._current = threading.local()
+
+    @property
+    def node(self) -> typing.Optional[ast.AST]:
+        return getattr(self._current, "node", None)
+
+    @node.setter
+    def node(self, node: ast.AST):
+        if isinstance(node, ast.Module):
+            # a new program (or a new pass over it)
+            self._current.node = None
+        elif hasattr(node, "lineno"):
+            # other nodes have no position on their own, they belong to the node visited before
+            self._current.node = node
 
     def filter(self, record):
         if self.node is None:
-- 
2.43.0


From b0dcd80d5ef361784a3fb271a1c2443ed87df079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 10/31] fix: restore the module search path when importing the
 contract fails

---
 opshin/__main__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opshin/__main__.py b/opshin/__main__.py
index 56c4374..5e76c8d 100644
--- a/opshin/__main__.py
+++ b/opshin/__main__.py
@@ -266,7 +266,8 @@ def perform_command(args):
         tmp_input_file = pathlib.Path(tmpdir).joinpath(f"__tmp_opshin{uuid.uuid4()}.py")
         with tmp_input_file.open("w") as fp:
             fp.write(source_code)
-        sys.path.append(str(pathlib.Path(tmp_input_file).parent.absolute()))
+        tmp_path = str(pathlib.Path(tmp_input_file).parent.absolute())
+        sys.path.append(tmp_path)
         try:
             sc = importlib.import_module(pathlib.Path(tmp_input_file).stem)
         except Exception as e:
@@ -274,7 +275,8 @@ def perform_command(args):
             raise SyntaxError(
                 f"Could not import the input file as python module. Make sure the input file is valid python code. Error: {e}",
             ) from e
-        sys.path.pop()
+        finally:
+            sys.path.remove(tmp_path)
     # load the passed parameters if not a lib
     try:
         argspec = inspect.signature(sc.validator if lib is None else getattr(sc, lib))
-- 
2.43.0


From b55bbb717587571debf5e2c2316c6393a268c0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 11/31] fix: read the contract from stdin if the input file is
 -

---
 opshin/__main__.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/opshin/__main__.py b/opshin/__main__.py
index 5e76c8d..b08ff44 100644
--- a/opshin/__main__.py
+++ b/opshin/__main__.py
@@ -258,10 +258,14 @@ def perform_command(args):
 
     # execute the command
     command = Command(args.command)
-    input_file = args.input_file if args.input_file != "-" else sys.stdin
     # read and import the contract
-    with open(input_file, "r") as f:
-        source_code = f.read()
+    if args.input_file == "-":
+        input_file = "<stdin>"
+        source_code = sys.stdin.read()
+    else:
+        input_file = args.input_file
+        with open(input_file, "r") as f:
+            source_code = f.read()
     with tempfile.TemporaryDirectory(prefix="build") as tmpdir:
         tmp_input_file = pathlib.Path(tmpdir).joinpath(f"__tmp_opshin{uuid.uuid4()}.py")
         with tmp_input_file.open("w") as fp:
@@ -426,7 +430,9 @@ Note that opshin errors may be overly restrictive as they aim to prevent code wi
             redeemer_type=None,
             parameter_types=param_types,
             purpose=(Purpose.any,),
-            title=pathlib.Path(input_file).stem,
+            title=(
+                pathlib.Path(input_file).stem if args.input_file != "-" else "validator"
+            ),
         )
         script_arts.dump(target_dir)
 
-- 
2.43.0


From c8acdabc5d181f807d8e4dd662626f846555feea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 12/31] fix: read sources as utf-8 whatever the locale

---
 opshin/__main__.py               |  4 ++--
 opshin/builder.py                | 14 +++++++-------
 opshin/rewrite/rewrite_import.py |  2 +-
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/opshin/__main__.py b/opshin/__main__.py
index b08ff44..12eedde 100644
--- a/opshin/__main__.py
+++ b/opshin/__main__.py
@@ -264,11 +264,11 @@ def perform_command(args):
         source_code = sys.stdin.read()
     else:
         input_file = args.input_file
-        with open(input_file, "r") as f:
+        with open(input_file, "r", encoding="utf-8") as f:
             source_code = f.read()
     with tempfile.TemporaryDirectory(prefix="build") as tmpdir:
         tmp_input_file = pathlib.Path(tmpdir).joinpath(f"__tmp_opshin{uuid.uuid4()}.py")
-        with tmp_input_file.open("w") as fp:
+        with tmp_input_file.open("w", encoding="utf-8") as fp:
             fp.write(source_code)
         tmp_path = str(pathlib.Path(tmp_input_file).parent.absolute())
         sys.path.append(tmp_path)
diff --git a/opshin/builder.py b/opshin/builder.py
index bed2aac..78f0ec0 100644
--- a/opshin/builder.py
+++ b/opshin/builder.py
@@ -177,17 +177,17 @@ class PlutusContract:
     def dump(self, target_dir: Union[str, Path]):
         target_dir = Path(target_dir)
         target_dir.mkdir(exist_ok=True, parents=True)
-        with (target_dir / "script.cbor").open("w") as fp:
+        with (target_dir / "script.cbor").open("w", encoding="utf-8") as fp:
             fp.write(self.cbor_hex)
-        with (target_dir / "script.plutus").open("w") as fp:
+        with (target_dir / "script.plutus").open("w", encoding="utf-8") as fp:
             fp.write(self.plutus_json)
-        with (target_dir / "script.policy_id").open("w") as fp:
+        with (target_dir / "script.policy_id").open("w", encoding="utf-8") as fp:
             fp.write(self.policy_id)
-        with (target_dir / "mainnet.addr").open("w") as fp:
+        with (target_dir / "mainnet.addr").open("w", encoding="utf-8") as fp:
             fp.write(self.mainnet_addr.encode())
-        with (target_dir / "testnet.addr").open("w") as fp:
+        with (target_dir / "testnet.addr").open("w", encoding="utf-8") as fp:
             fp.write(self.testnet_addr.encode())
-        with (target_dir / "blueprint.json").open("w") as fp:
+        with (target_dir / "blueprint.json").open("w", encoding="utf-8") as fp:
             json.dump(self.blueprint, fp, indent=2)
 
 
@@ -281,7 +281,7 @@ def build(
     """
     Expects a python module and returns the build artifacts from compiling it
     """
-    with open(contract_file) as f:
+    with open(contract_file, encoding="utf-8") as f:
         source_code = f.read()
     code = _compile(
         source_code,
diff --git a/opshin/rewrite/rewrite_import.py b/opshin/rewrite/rewrite_import.py
index bfd0405..85009cf 100644
--- a/opshin/rewrite/rewrite_import.py
+++ b/opshin/rewrite/rewrite_import.py
@@ -135,7 +135,7 @@ class RewriteImport(CompilingNodeTransformer):
             module_file.suffix == ".py"
         ), "The import must import a single python file."
         # visit the imported file again - make sure that recursive imports are resolved accordingly
-        with module_file.open("r") as fp:
+        with module_file.open("r", encoding="utf-8") as fp:
             module_content = fp.read()
         resolved = parse(module_content, filename=module_file.name)
         # annotate this to point to the original line number!
-- 
2.43.0


From f44bb22dc2ec8172ad33fa520ae5eec47703c436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 13/31] fix: keep the program version when parameters are
 applied

Contracts built by the command line have version 1.1.0, binding their
parameters later turned them into a different (1.0.0) script.
---
 opshin/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opshin/builder.py b/opshin/builder.py
index 78f0ec0..5016076 100644
--- a/opshin/builder.py
+++ b/opshin/builder.py
@@ -447,7 +447,7 @@ def _apply_parameters(script: uplc.ast.Program, *args: pycardano.Datum):
                 else d
             ),
         )
-    code = uplc.ast.Program((1, 0, 0), code)
+    code = uplc.ast.Program(script.version, code)
     return code
 
 
-- 
2.43.0


From 74123f80ed3ee0f5e6dd93cb225045732439002a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 14/31] fix: pass the kept program version on as a tuple, as
 decoding programs expects

---
 opshin/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opshin/builder.py b/opshin/builder.py
index 5016076..99cc23a 100644
--- a/opshin/builder.py
+++ b/opshin/builder.py
@@ -447,7 +447,7 @@ def _apply_parameters(script: uplc.ast.Program, *args: pycardano.Datum):
                 else d
             ),
         )
-    code = uplc.ast.Program(script.version, code)
+    code = uplc.ast.Program(tuple(script.version), code)
     return code
 
 
-- 
2.43.0


From e65311662166ba803521ee397d2bab954fd1bf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:10 +0000
Subject: [PATCH 15/31] fix: list only the remaining parameters in contracts
 built with bound parameters

---
 opshin/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opshin/__main__.py b/opshin/__main__.py
index 12eedde..049e6ee 100644
--- a/opshin/__main__.py
+++ b/opshin/__main__.py
@@ -428,7 +428,8 @@ Note that opshin errors may be overly restrictive as they aim to prevent code wi
             # TODO this actually does not work anymore
             datum_type=None,
             redeemer_type=None,
-            parameter_types=param_types,
+            # the passed parameters are bound already
+            parameter_types=param_types[len(uplc_params) :],
             purpose=(Purpose.any,),
             title=(
                 pathlib.Path(input_file).stem if args.input_file != "-" else "validator"
-- 
2.43.0


From f15a2d6b30926b5d3fdb821e13403f52e8b26d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:32 +0000
Subject: [PATCH 16/31] fix: abort the compilation when memory runs out during
 constant folding

---
 opshin/optimize/optimize_const_folding.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/opshin/optimize/optimize_const_folding.py b/opshin/optimize/optimize_const_folding.py
index 84b85f8..b504cb2 100644
--- a/opshin/optimize/optimize_const_folding.py
+++ b/opshin/optimize/optimize_const_folding.py
@@ -254,6 +254,9 @@ class OptimizeConstantFolding(CompilingNodeTransformer):
         l = {}
         try:
             exec(unparse(node), g, l)
+        except MemoryError:
+            # not a property of the expression
+            raise
         except Exception as e:
             OPSHIN_LOGGER.debug(e)
         else:
@@ -293,6 +296,9 @@ class OptimizeConstantFolding(CompilingNodeTransformer):
             try:
                 # we need to pass the global dict as local dict here to make closures possible (rec functions)
                 exec(unparse(node), g, g)
+            except MemoryError:
+                # not a property of the expression
+                raise
             except Exception as e:
                 OPSHIN_LOGGER.debug(e)
             else:
@@ -365,6 +371,9 @@ class OptimizeConstantFolding(CompilingNodeTransformer):
             return node
         try:
             node_source = unparse(node)
+        except MemoryError:
+            # not a property of the expression
+            raise
         except Exception as e:
             OPSHIN_LOGGER.debug("Error when trying to unparse node: %s", e)
             return node
@@ -376,6 +385,9 @@ class OptimizeConstantFolding(CompilingNodeTransformer):
             g = self._non_overwritten_globals()
             l = self._constant_vars()
             node_eval = eval(node_source, g, l)
+        except MemoryError:
+            # not a property of the expression
+            raise
         except Exception as e:
             OPSHIN_LOGGER.debug("Error trying to evaluate node: %s", e)
             return node
-- 
2.43.0


From 22f67006de24c46bd71542da134c64223de2b3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:19 +0000
Subject: [PATCH 17/31] fix: report the position of bare annotations

Constant folding visited the missing value of an annotation without
assignment, which failed with an internal error that carries no position.
---
 opshin/optimize/optimize_const_folding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opshin/optimize/optimize_const_folding.py b/opshin/optimize/optimize_const_folding.py
index b504cb2..c2c1c0b 100644
--- a/opshin/optimize/optimize_const_folding.py
+++ b/opshin/optimize/optimize_const_folding.py
@@ -346,7 +346,7 @@ class OptimizeConstantFolding(CompilingNodeTransformer):
 
     def visit_AnnAssign(self, node: AnnAssign):
         target = node.target
-        if not isinstance(target, Name):
+        if not isinstance(target, Name) or node.value is None:
             return node
 
         if target.id in self.constants:
-- 
2.43.0


From 2e1df0414f5c979783aef2ee587fbfbde3f3f0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:16 +0000
Subject: [PATCH 18/31] fix: keep the position of statements that are rewritten
 before type inference

---
 opshin/rewrite/rewrite_augassign.py    | 2 +-
 opshin/rewrite/rewrite_tuple_assign.py | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/opshin/rewrite/rewrite_augassign.py b/opshin/rewrite/rewrite_augassign.py
index 8d0f69a..b844086 100644
--- a/opshin/rewrite/rewrite_augassign.py
+++ b/opshin/rewrite/rewrite_augassign.py
@@ -23,4 +23,4 @@ class RewriteAugAssign(CompilingNodeTransformer):
                 self.visit(node.value),
             ),
         )
-        return a
+        return copy_location(a, node)
diff --git a/opshin/rewrite/rewrite_tuple_assign.py b/opshin/rewrite/rewrite_tuple_assign.py
index 613f5f3..d953d3d 100644
--- a/opshin/rewrite/rewrite_tuple_assign.py
+++ b/opshin/rewrite/rewrite_tuple_assign.py
@@ -52,6 +52,8 @@ class RewriteTupleAssign(CompilingNodeTransformer):
                 index=i,
             )
             assignments.append(assignment)
+        for assignment in assignments:
+            copy_location(assignment, node)
         # recursively resolve multiple layers of tuples
         transformed = sum([self.visit(a) for a in assignments], [])
         return transformed
@@ -89,6 +91,8 @@ class RewriteTupleAssign(CompilingNodeTransformer):
                     ),
                 )
             )
+        for assignment in assignments:
+            copy_location(assignment, node.target)
         new_for.body = assignments + node.body
         # recursively resolve multiple layers of tuples
         # further layers should be handled by the normal tuple assignment though
-- 
2.43.0


From 38b9ccc25aa07768b574adf085f4cb64b5552a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:26 +0000
Subject: [PATCH 19/31] fix: report the column of errors on the command line

---
 opshin/__main__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/opshin/__main__.py b/opshin/__main__.py
index 049e6ee..a4fa057 100644
--- a/opshin/__main__.py
+++ b/opshin/__main__.py
@@ -354,13 +354,14 @@ def perform_command(args):
         if not isinstance(c.node, ast.Module):
             source_seg = ast.get_source_segment(source_code, c.node)
             start_line = c.node.lineno - 1
-            end_line = start_line + len(source_seg.splitlines())
-            source_lines = "\n".join(source_code.splitlines()[start_line:end_line])
-            pos_in_line = source_lines.find(source_seg)
+            end_line = start_line + len(source_seg.split("\n"))
+            source_lines = "\n".join(source_code.split("\n")[start_line:end_line])
+            # the column is given in utf8 bytes
+            pos_in_line = len(source_lines.encode()[: c.node.col_offset].decode())
         else:
             start_line = 0
             pos_in_line = 0
-            source_lines = source_code.splitlines()[0]
+            source_lines = source_code.split("\n")[0]
 
         overwrite_syntaxerror = (
             len("SyntaxError: ") * "\b" if command != Command.lint else ""
-- 
2.43.0


From 3e070b0cf8d6c2a427b2997b6a0f3885a8e404a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:33 +0000
Subject: [PATCH 20/31] fix: report where the import of the contract failed

---
 opshin/__main__.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/opshin/__main__.py b/opshin/__main__.py
index a4fa057..ed1f6c6 100644
--- a/opshin/__main__.py
+++ b/opshin/__main__.py
@@ -14,6 +14,7 @@ import importlib
 import json
 import pathlib
 import sys
+import traceback
 import typing
 import ast
 
@@ -276,8 +277,23 @@ def perform_command(args):
             sc = importlib.import_module(pathlib.Path(tmp_input_file).stem)
         except Exception as e:
             # replace the traceback with an error pointing to the input file
+            if isinstance(e, SyntaxError) and e.filename == str(tmp_input_file):
+                error, line, column = e.msg, e.lineno or 1, max(e.offset or 1, 1) - 1
+            else:
+                executed_lines = [
+                    lineno
+                    for frame, lineno in traceback.walk_tb(e.__traceback__)
+                    if frame.f_code.co_filename == str(tmp_input_file)
+                ]
+                error, line, column = e, (executed_lines or [1])[-1], 0
             raise SyntaxError(
-                f"Could not import the input file as python module. Make sure the input file is valid python code. Error: {e}",
+                f"Could not import the input file as python module. Make sure the input file is valid python code. Error: {error}",
+                (
+                    args.input_file,
+                    line,
+                    column,
+                    "".join(source_code.split("\n")[line - 1 : line]),
+                ),
             ) from e
         finally:
             sys.path.remove(tmp_path)
-- 
2.43.0


From dd196e7d9b05a8d9187a6cbc67015e771b363228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:47 +0000
Subject: [PATCH 21/31] fix: report errors and warnings about classes and
 methods at the class or method

---
 opshin/type_inference.py | 89 +++++++++++++++++++++++-----------------
 1 file changed, 52 insertions(+), 37 deletions(-)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index 1baf63d..5369f54 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -27,10 +27,12 @@ from typing import Union
 import pluthon as plt
 from .typed_ast import *
 from .util import (
+    CompilerError,
     CompilingNodeTransformer,
     distinct,
     TypedNodeVisitor,
     OPSHIN_LOGGER,
+    OPSHIN_LOG_CONTEXT_FILTER,
     AnnotationNodeVisitor,
     AnnotationNodeReducer,
     AnnotationNodeTransformer,
@@ -833,6 +835,10 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                     progress = True
                 except TypeInferenceError:
                     next_pending.append(class_node)
+                except CompilerError:
+                    raise
+                except Exception as e:
+                    raise CompilerError(e, class_node, self.step)
             if not progress and next_pending:
                 # Some imported class graphs can only be resolved later in strict statement order.
                 break
@@ -865,6 +871,10 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                 # Some imported helpers can only be typed after earlier declarations.
                 # Defer those to the main definition pass.
                 continue
+            except CompilerError:
+                raise
+            except Exception as e:
+                raise CompilerError(e, stmt, self.step)
 
     def predeclare_sequence_symbols(self, node_seq: typing.List[stmt]):
         self.predeclare_class_symbols(node_seq)
@@ -888,44 +898,49 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                 if not isinstance(attribute, ast.FunctionDef):
                     non_method_attributes.append(attribute)
                     continue
-                func = copy(attribute)
-                if func.name[0:2] == "__" and func.name[-2:] == "__":
-                    assert (
-                        func.name in ALL_DUNDERS
-                    ), f"The following Dunder methods are supported {sorted(ALL_DUNDERS)}. Received {func.name} which is not supported"
-                func.name = method_name(n.name, attribute.name)
-
-                def does_literally_reference_self(arg):
-                    detector = LiteralSelfReferenceDetector(n.name)
-                    detector.visit(arg)
-                    return detector.found
-
-                for arg in func.args.args:
+                # warnings and errors refer to the method
+                OPSHIN_LOG_CONTEXT_FILTER.node = attribute
+                try:
+                    func = copy(attribute)
+                    if func.name[0:2] == "__" and func.name[-2:] == "__":
+                        assert (
+                            func.name in ALL_DUNDERS
+                        ), f"The following Dunder methods are supported {sorted(ALL_DUNDERS)}. Received {func.name} which is not supported"
+                    func.name = method_name(n.name, attribute.name)
+
+                    def does_literally_reference_self(arg):
+                        detector = LiteralSelfReferenceDetector(n.name)
+                        detector.visit(arg)
+                        return detector.found
+
+                    for arg in func.args.args:
+                        assert not does_literally_reference_self(
+                            arg.annotation
+                        ), f"Argument '{arg.arg}' of method '{attribute.name}' in class '{n.name}' literally references the class itself. This is not allowed. If you want to reference the class itself, use 'Self' as type annotation."
                     assert not does_literally_reference_self(
-                        arg.annotation
-                    ), f"Argument '{arg.arg}' of method '{attribute.name}' in class '{n.name}' literally references the class itself. This is not allowed. If you want to reference the class itself, use 'Self' as type annotation."
-                assert not does_literally_reference_self(
-                    func.returns
-                ), f"Return type of method '{attribute.name}' in class '{n.name}' literally references the class itself. This is not allowed. If you want to reference the class itself, use 'Self' as type annotation."
-                ann = ast.Name(id=n.name, ctx=ast.Load())
-                if len(func.args.args) == 0:
-                    raise TypeError(
-                        f"Method '{attribute.orig_name}' in class '{n.orig_name}' must have at least one argument (self)"
-                    )
-                custom_fix_missing_locations(ann, attribute.args.args[0])
-                if func.args.args[0].orig_arg != "self":
-                    OPSHIN_LOGGER.warning(
-                        f"The first argument of method '{attribute.name}' in class '{n.orig_name}' should be named 'self', but found '{func.args.args[0].orig_arg}'. This is not enforced, but recommended."
-                    )
-                if func.args.args[0].annotation is not None and not (
-                    isinstance(func.args.args[0].annotation, Name)
-                    and func.args.args[0].annotation.id == "Self"
-                ):
-                    raise TypeError(
-                        f"The first argument of method '{attribute.name}' in class '{n.name}' must either not be annotated or be annotated with 'Self' to indicate that it is the instance of the class."
-                    )
-                ann.orig_id = attribute.args.args[0].orig_arg
-                func.args.args[0].annotation = ann
+                        func.returns
+                    ), f"Return type of method '{attribute.name}' in class '{n.name}' literally references the class itself. This is not allowed. If you want to reference the class itself, use 'Self' as type annotation."
+                    ann = ast.Name(id=n.name, ctx=ast.Load())
+                    if len(func.args.args) == 0:
+                        raise TypeError(
+                            f"Method '{attribute.orig_name}' in class '{n.orig_name}' must have at least one argument (self)"
+                        )
+                    custom_fix_missing_locations(ann, attribute.args.args[0])
+                    if func.args.args[0].orig_arg != "self":
+                        OPSHIN_LOGGER.warning(
+                            f"The first argument of method '{attribute.name}' in class '{n.orig_name}' should be named 'self', but found '{func.args.args[0].orig_arg}'. This is not enforced, but recommended."
+                        )
+                    if func.args.args[0].annotation is not None and not (
+                        isinstance(func.args.args[0].annotation, Name)
+                        and func.args.args[0].annotation.id == "Self"
+                    ):
+                        raise TypeError(
+                            f"The first argument of method '{attribute.name}' in class '{n.name}' must either not be annotated or be annotated with 'Self' to indicate that it is the instance of the class."
+                        )
+                    ann.orig_id = attribute.args.args[0].orig_arg
+                    func.args.args[0].annotation = ann
+                except Exception as e:
+                    raise CompilerError(e, attribute, self.step)
 
                 self_arg_name = attribute.args.args[0].arg
 
-- 
2.43.0


From 29c72534be62289026da3d2205534773519d15d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:24 +0000
Subject: [PATCH 22/31] fix: keep every alternative when unions are merged

extend() returns None, so merging a class with a union after a branch lost
all alternatives of the union and fields were read at the wrong position.
---
 opshin/type_inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index 5369f54..adfbc9a 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -381,7 +381,7 @@ def union_types(*ts: Type):
     while to_process:
         t = to_process.pop()
         if isinstance(t, UnionType):
-            to_process = to_process.extend(reversed(t.typs))
+            to_process.extend(reversed(t.typs))
         else:
             assert isinstance(
                 t, (RecordType, IntegerType, ByteStringType, ListType, DictType)
-- 
2.43.0


From a51cc91744032ba2d8eb78af0c54540e379ba3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:32 +0000
Subject: [PATCH 23/31] fix: call the builtin that was asked for on chain

quotient_integer was compiled to a multiplication; look builtins up in the
same table as the off-chain bridge.
---
 opshin/rewrite/rewrite_import_uplc_builtins.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/opshin/rewrite/rewrite_import_uplc_builtins.py b/opshin/rewrite/rewrite_import_uplc_builtins.py
index c7a52ec..c4949db 100644
--- a/opshin/rewrite/rewrite_import_uplc_builtins.py
+++ b/opshin/rewrite/rewrite_import_uplc_builtins.py
@@ -4,6 +4,7 @@ from copy import copy
 from typing import Optional
 
 import pluthon as plt
+import uplc.ast
 from ..bridge import to_uplc_fun_name
 
 from ..util import CompilingNodeTransformer
@@ -47,10 +48,15 @@ class RewriteImportUPLCBuiltins(CompilingNodeTransformer):
             "_Signature"
         ):
             CamelCaseFunName = CamelCaseFunName.removesuffix("_Signature") + "Signature"
-        uplc_fun = plt.__dict__[CamelCaseFunName]
+        # use the same builtin as the bridge does off-chain
+        builtin = uplc.ast.BuiltInFun[CamelCaseFunName]
+        uplc_fun = plt.BuiltIn(builtin)
+        for _ in range(uplc.ast.BuiltInFunForceMap[builtin]):
+            uplc_fun = plt.Force(uplc_fun)
         pluto_expression = RawPlutoExpr(
             typ=node.typ.typ.rettyp,
-            expr=uplc_fun(
+            expr=plt.Apply(
+                uplc_fun,
                 *(plt.Force(plt.Var(a.arg)) for a in node.args.args),
             ),
         )
-- 
2.43.0


From 1231e987ed1807fc855572d7205bedb444ed83d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:46 +0000
Subject: [PATCH 24/31] fix: do not call user-defined comparisons when looking
 for empty containers

Constants of classes with __eq__ (like Fraction) made constant folding fail
with a NameError.
---
 opshin/optimize/optimize_const_folding.py | 2 +-
 opshin/rewrite/rewrite_empty_dicts.py     | 2 +-
 opshin/rewrite/rewrite_empty_lists.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/opshin/optimize/optimize_const_folding.py b/opshin/optimize/optimize_const_folding.py
index c2c1c0b..d1f7a4b 100644
--- a/opshin/optimize/optimize_const_folding.py
+++ b/opshin/optimize/optimize_const_folding.py
@@ -395,7 +395,7 @@ class OptimizeConstantFolding(CompilingNodeTransformer):
         if any(
             isinstance(node_eval, t)
             for t in ACCEPTED_ATOMIC_TYPES + [list, dict, PlutusData]
-        ) and not (node_eval == [] or node_eval == {}):
+        ) and not (isinstance(node_eval, (list, dict)) and not node_eval):
             if not is_reproducible_value(node_eval):
                 node.unreproducible = True
                 return node
diff --git a/opshin/rewrite/rewrite_empty_dicts.py b/opshin/rewrite/rewrite_empty_dicts.py
index e654038..c096e1b 100644
--- a/opshin/rewrite/rewrite_empty_dicts.py
+++ b/opshin/rewrite/rewrite_empty_dicts.py
@@ -16,6 +16,6 @@ class RewriteEmptyDicts(CompilingNodeTransformer):
         return RawPlutoExpr(typ=node.typ, expr=plt.MkNilPairData(plt.Unit()))
 
     def visit_Constant(self, node: TypedConstant):
-        if node.value != {}:
+        if not (isinstance(node.value, dict) and not node.value):
             return node
         return RawPlutoExpr(typ=node.typ, expr=plt.MkNilPairData(plt.Unit()))
diff --git a/opshin/rewrite/rewrite_empty_lists.py b/opshin/rewrite/rewrite_empty_lists.py
index e3d1036..1c96d86 100644
--- a/opshin/rewrite/rewrite_empty_lists.py
+++ b/opshin/rewrite/rewrite_empty_lists.py
@@ -16,6 +16,6 @@ class RewriteEmptyLists(CompilingNodeTransformer):
         return RawPlutoExpr(typ=node.typ, expr=empty_list(node.typ.typ.typ))
 
     def visit_Constant(self, node: TypedConstant):
-        if node.value != []:
+        if not (isinstance(node.value, list) and not node.value):
             return node
         return RawPlutoExpr(typ=node.typ, expr=empty_list(node.typ.typ.typ))
-- 
2.43.0


From d5a62176d03ae0fa3a0cab088c776f2277f63393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:31 +0000
Subject: [PATCH 25/31] fix: type folded constants as instances of the declared
 class

Operators and methods that a class defines were ignored on constants, so a
comparison with a folded constant could give another result than without
constant folding.
---
 opshin/type_inference.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index adfbc9a..5bb55f5 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -320,7 +320,8 @@ def record_from_plutusdata(c: PlutusData):
     )
 
 
-def constant_type(c):
+def constant_type(c, record_type=lambda c: RecordType(record_from_plutusdata(c))):
+    """The type of a constant, record_type determines the type of instances of PlutusData"""
     if isinstance(c, bool):
         return BoolInstanceType
     if isinstance(c, int):
@@ -333,7 +334,7 @@ def constant_type(c):
         return StringInstanceType
     if isinstance(c, list):
         assert len(c) > 0, "Lists must be non-empty"
-        types = [constant_type(x) for x in c]
+        types = [constant_type(x, record_type) for x in c]
         first_typ = find_max_type([InstanceType(t) for t in types])
         if first_typ is None:
             raise ValueError(
@@ -343,8 +344,8 @@ def constant_type(c):
     if isinstance(c, dict):
         assert len(c) > 0, "Dicts must be non-empty"
 
-        key_types = [constant_type(k) for k in c.keys()]
-        value_types = [constant_type(v) for v in c.values()]
+        key_types = [constant_type(k, record_type) for k in c.keys()]
+        value_types = [constant_type(v, record_type) for v in c.values()]
         first_key_typ = find_max_type([InstanceType(t) for t in key_types])
         first_value_typ = find_max_type([InstanceType(t) for t in value_types])
         if first_key_typ is None:
@@ -357,7 +358,7 @@ def constant_type(c):
             )
         return InstanceType(DictType(first_key_typ, first_value_typ))
     if isinstance(c, PlutusData):
-        return InstanceType(RecordType(record=record_from_plutusdata(c)))
+        return InstanceType(record_type(c))
     raise NotImplementedError(f"Type {type(c)} not supported")
 
 
@@ -1041,6 +1042,19 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
         typed_node.class_typ = typ
         return typed_node
 
+    def record_type_of_constant(self, c: PlutusData) -> RecordType:
+        # the declared type of the class, such that constants behave like any other instance
+        typ = RecordType(record_from_plutusdata(c))
+        for scope in reversed(self.scopes):
+            for declared in scope.values():
+                if (
+                    isinstance(declared, RecordType)
+                    and declared.record.orig_name == typ.record.orig_name
+                    and declared >= typ
+                ):
+                    return declared
+        return typ
+
     def visit_Constant(self, node: Constant) -> TypedConstant:
         tc = copy(node)
         assert type(node.value) not in [
@@ -1048,7 +1062,7 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
             complex,
             type(...),
         ], "Float, complex numbers and ellipsis currently not supported"
-        tc.typ = constant_type(node.value)
+        tc.typ = constant_type(node.value, self.record_type_of_constant)
         return tc
 
     def visit_NoneType(self, node: None) -> TypedConstant:
-- 
2.43.0


From f60aa5d00cac8d98339ddfccbb3cb15094b0f22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:18 +0000
Subject: [PATCH 26/31] fix: != is the opposite of a user-defined ==

Without __ne__ the data was compared on chain, so Fraction(1, 2) !=
Fraction(2, 4) held on chain but not in Python.
---
 opshin/type_inference.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index 5bb55f5..32743cc 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -680,15 +680,23 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
             return None
         dunder_name = DUNDER_MAP[operation.__class__]
         receiver_class_name = receiver_type.typ.record.name
+        negate_result = isinstance(operation, ast.NotIn)
         resolved_method_name = method_name(receiver_class_name, dunder_name)
         if not any(resolved_method_name in scope for scope in self.scopes):
-            return None
+            if not isinstance(operation, ast.NotEq):
+                return None
+            # like in Python, != is the opposite of == unless it is defined on its own
+            dunder_name = DUNDER_MAP[ast.Eq]
+            negate_result = True
+            resolved_method_name = method_name(receiver_class_name, dunder_name)
+            if not any(resolved_method_name in scope for scope in self.scopes):
+                return None
         return DunderCompareOverride(
             method_name=resolved_method_name,
             function_type=self.variable_type(resolved_method_name),
             dunder_name=dunder_name,
             receiver_right=receiver_right,
-            negate_result=isinstance(operation, ast.NotIn),
+            negate_result=negate_result,
             receiver=receiver,
             argument=argument,
         )
-- 
2.43.0


From 4cb99578f51c76cb4852dd05f7f80180312ed14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:54 +0000
Subject: [PATCH 27/31] fix: do not pass the size check when a script is
 missing or stale

---
 scripts/binary_size_tracker.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scripts/binary_size_tracker.py b/scripts/binary_size_tracker.py
index 0d071f2..023b721 100755
--- a/scripts/binary_size_tracker.py
+++ b/scripts/binary_size_tracker.py
@@ -87,12 +87,15 @@ def compile_contract(
 ) -> Optional[int]:
     """
     Compile a contract and return the CBOR file size in bytes.
-    Returns None if compilation fails.
+    Raises an exception if compilation fails.
     """
     if work_dir is None:
         work_dir = os.getcwd()
 
     output_dir = f"size_test_{optimization}"
+    # Do not measure what an aborted build left behind
+    if (Path(work_dir) / output_dir).exists():
+        shutil.rmtree(Path(work_dir) / output_dir)
 
     cmd = [
         "uv",
@@ -124,7 +127,7 @@ def compile_contract(
         return size
     else:
         print(f"CBOR file not found for {contract_path}")
-        return None
+        raise Exception(f"No script was written for {contract_path}")
 
 
 def evaluate_contract(
-- 
2.43.0


From 5976431bf693ece7aca82bb37dc86e4c3e0d0432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:12 +0000
Subject: [PATCH 28/31] fix: do not pass the size check without a baseline

---
 scripts/binary_size_tracker.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scripts/binary_size_tracker.py b/scripts/binary_size_tracker.py
index 023b721..6183664 100755
--- a/scripts/binary_size_tracker.py
+++ b/scripts/binary_size_tracker.py
@@ -319,8 +319,7 @@ def compare_with_baseline(
     Returns True if there are significant changes, False otherwise.
     """
     if not os.path.exists(baseline_file):
-        print(f"Baseline file {baseline_file} not found")
-        return False
+        raise FileNotFoundError(f"Baseline file {baseline_file} not found")
 
     config = load_config(config_file)
     warning_threshold = config["thresholds"]["warning"]
-- 
2.43.0


From 9abf179ae90517ec36cb8bae6d42cad39299da34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:12 +0000
Subject: [PATCH 29/31] fix: keep the stored size baseline when writing a new
 one fails

---
 scripts/binary_size_tracker.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/binary_size_tracker.py b/scripts/binary_size_tracker.py
index 6183664..9335b08 100755
--- a/scripts/binary_size_tracker.py
+++ b/scripts/binary_size_tracker.py
@@ -303,8 +303,11 @@ def generate_baseline(
         config["contracts"], config["optimization_levels"], work_dir
     )
 
-    with open(output_file, "w") as f:
+    # Replace the stored baseline only once the new one is complete
+    temp_file = f"{output_file}.tmp"
+    with open(temp_file, "w") as f:
         json.dump(results, f, indent=2)
+    os.replace(temp_file, output_file)
 
     print(f"Baseline saved to {output_file}")
 
-- 
2.43.0


From f60bcb17b03de6169c814ad0741c105eb70ca8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:12 +0000
Subject: [PATCH 30/31] fix: report test cases that can no longer be evaluated
 as a change

---
 scripts/binary_size_tracker.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scripts/binary_size_tracker.py b/scripts/binary_size_tracker.py
index 9335b08..1ae708b 100755
--- a/scripts/binary_size_tracker.py
+++ b/scripts/binary_size_tracker.py
@@ -454,9 +454,6 @@ def compare_with_baseline(
                     current_cpu = current_cost.get("cpu")
                     current_mem = current_cost.get("memory")
 
-                    if current_cpu is None or current_mem is None:
-                        continue
-
                     # Find matching baseline test case
                     baseline_cost = next(
                         (
@@ -467,6 +464,12 @@ def compare_with_baseline(
                         None,
                     )
 
+                    if current_cpu is None or current_mem is None:
+                        if baseline_cost and baseline_cost.get("cpu") is not None:
+                            has_changes = True if not ignore_warnings else has_changes
+                            print(f"    Test '{test_case}': FAILED to evaluate")
+                        continue
+
                     if baseline_cost and baseline_cost.get("cpu") is not None:
                         baseline_cpu = baseline_cost.get("cpu")
                         baseline_mem = baseline_cost.get("memory")
-- 
2.43.0


From e92178f5b8aacc4a8c258cf7934f25e9f2671974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:12 +0000
Subject: [PATCH 31/31] fix: fail the local size check when the comparison
 fails

---
 scripts/check_binary_sizes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/check_binary_sizes.py b/scripts/check_binary_sizes.py
index b1351bb..b74b2dd 100755
--- a/scripts/check_binary_sizes.py
+++ b/scripts/check_binary_sizes.py
@@ -95,13 +95,17 @@ def main():
     try:
         # Run the comparison
         print("\nRunning binary size comparison...")
-        os.system(f"python {tracker_script} compare --baseline-file {baseline_file}")
+        status = os.system(
+            f"python {tracker_script} compare --baseline-file {baseline_file}"
+        )
 
     finally:
         # Clean up temp file if we downloaded it
         if not args.baseline_file and baseline_file and os.path.exists(baseline_file):
             os.unlink(baseline_file)
 
+    sys.exit(1 if status != 0 else 0)
+
 
 if __name__ == "__main__":
     main()
-- 
2.43.0

