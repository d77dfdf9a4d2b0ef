From 3277d50b607cc77f3d2f7c15e022690ff9fa2ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 01/11] fix: reject a trailing newline in keys, extension
 names, versions and emails

---
 asyncapi3/models/asyncapi.py    | 2 +-
 asyncapi3/models/base_models.py | 2 +-
 asyncapi3/models/helpers.py     | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/asyncapi3/models/asyncapi.py b/asyncapi3/models/asyncapi.py
index eb0ab07..cf21614 100644
--- a/asyncapi3/models/asyncapi.py
+++ b/asyncapi3/models/asyncapi.py
@@ -258,7 +258,7 @@ class AsyncAPI3(ExtendableBaseModel):
         """Validate AsyncAPI version format (semantic versioning) and compatibility."""
         # Pattern for semantic versioning: major.minor.patch[-suffix]
         pattern = r"^\d+\.\d+\.\d+(-[\w\.\-]+)?$"
-        if not re.match(pattern, version):
+        if not re.fullmatch(pattern, version):
             raise ValueError(
                 "asyncapi must be in semantic versioning format: "
                 "major.minor.patch[-suffix]"
diff --git a/asyncapi3/models/base_models.py b/asyncapi3/models/base_models.py
index 25b3b60..557fa6f 100644
--- a/asyncapi3/models/base_models.py
+++ b/asyncapi3/models/base_models.py
@@ -45,7 +45,7 @@ class ExtendableBaseModel(BaseModel):
 
         extension_pattern = re.compile(r"^x-[\w\d\.\x2d_]+$")
         for key in self.model_extra:
-            if not extension_pattern.match(key):
+            if not extension_pattern.fullmatch(key):
                 raise ValueError(
                     f"Field '{key}' does not match specification extension pattern. "
                     f"Extensions must start with 'x-' and contain only word "
diff --git a/asyncapi3/models/helpers.py b/asyncapi3/models/helpers.py
index cca26d9..704c6f0 100644
--- a/asyncapi3/models/helpers.py
+++ b/asyncapi3/models/helpers.py
@@ -31,7 +31,7 @@ def validate_patterned_key(key: str | Any, object_name: str = "object") -> None:
     """
     pattern = re.compile(r"^[A-Za-z0-9_\-]+$")
     try:
-        if not pattern.match(key):
+        if not pattern.fullmatch(key):
             raise ValueError(
                 f"Field '{key}' does not match patterned object key pattern. "
                 "Keys must contain letters, digits, hyphens, and underscores."
@@ -54,7 +54,7 @@ class EmailStr(str):
         """Validate email format and return EmailStr instance."""
         # Email regex pattern that rejects consecutive dots
         pattern = r"^(?!.*\.\.)[a-zA-Z0-9._%+-]+@[a-zA-Z0-9.-]+\.[a-zA-Z]{2,}$"
-        if not re.match(pattern, value):
+        if not re.fullmatch(pattern, value):
             raise ValueError("Invalid email format")
         return value
 
-- 
2.43.0


From 7354e4ef690c26d6911adbd2b63c64d4b7de6686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 02/11] fix: validate key and value on patterned object item
 assignment

---
 asyncapi3/models/base_models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asyncapi3/models/base_models.py b/asyncapi3/models/base_models.py
index 557fa6f..1b10fa5 100644
--- a/asyncapi3/models/base_models.py
+++ b/asyncapi3/models/base_models.py
@@ -94,7 +94,10 @@ class PatternedRootModel(RootModel[dict[str, T]], Generic[T]):
         return self.root[item]
 
     def __setitem__(self, key: str, value: T) -> None:
-        self.root[key] = value
+        # Validate the new entry exactly as the constructor would, so that item
+        # assignment cannot store an invalid key or value.
+        validated = type(self).model_validate({key: value})
+        self.root[key] = validated.root[key]
 
     def __delitem__(self, key: str) -> None:
         del self.root[key]
-- 
2.43.0


From 83309fbbc8df4b6ef466b46642abdb4ad88dd2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 03/11] fix: strip the components prefix only once when
 resolving tag and docs keys

---
 asyncapi3/validators/external_docs_ref_validator.py | 2 +-
 asyncapi3/validators/tags_ref_validator.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/asyncapi3/validators/external_docs_ref_validator.py b/asyncapi3/validators/external_docs_ref_validator.py
index f186821..60e190b 100644
--- a/asyncapi3/validators/external_docs_ref_validator.py
+++ b/asyncapi3/validators/external_docs_ref_validator.py
@@ -524,7 +524,7 @@ class ExternalDocsRefValidator(ProcessorProtocol):
                 "but points elsewhere."
             )
 
-        doc_key = ref_value.replace("#/components/externalDocs/", "")
+        doc_key = ref_value.removeprefix("#/components/externalDocs/")
         if (
             not spec.components
             or not spec.components.external_docs
diff --git a/asyncapi3/validators/tags_ref_validator.py b/asyncapi3/validators/tags_ref_validator.py
index 9ee30b9..61032c5 100644
--- a/asyncapi3/validators/tags_ref_validator.py
+++ b/asyncapi3/validators/tags_ref_validator.py
@@ -281,7 +281,7 @@ class TagsRefValidator(ProcessorProtocol):
                 "#/components/tags/ but points elsewhere."
             )
 
-        tag_key = ref_value.replace("#/components/tags/", "")
+        tag_key = ref_value.removeprefix("#/components/tags/")
         if (
             not spec.components
             or not spec.components.tags
-- 
2.43.0


From ce2a426dacbd1c1ed41671a97d537cfbc52dce7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 04/11] fix: do not confuse user-defined keys with field names
 when typing references

---
 .../unified_references_validator.py           | 37 ++++++++++++++-----
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/asyncapi3/validators/unified_references_validator.py b/asyncapi3/validators/unified_references_validator.py
index 747c514..8f87255 100644
--- a/asyncapi3/validators/unified_references_validator.py
+++ b/asyncapi3/validators/unified_references_validator.py
@@ -273,7 +273,9 @@ class UnifiedReferencesValidator(ProcessorProtocol):
         try:
             resolution_result = resolve_reference(ref=ref_str, spec=spec)
         except ValueError as exc:
-            raise ValueError(f"Invalid reference at {ref_path}: {exc}") from exc
+            raise ValueError(
+                f"Invalid reference at {self._display_path(path=ref_path)}: {exc}"
+            ) from exc
 
         if resolution_result is None:
             return
@@ -289,8 +291,8 @@ class UnifiedReferencesValidator(ProcessorProtocol):
             expected_repr = self._format_type_name(expected_type=expected_type)
             resolved_repr = self._format_type_name(expected_type=resolved_type)
             raise ValueError(
-                f"Reference at {ref_path} resolved to {resolved_path} with type "
-                f"{resolved_repr}, expected {expected_repr}"
+                f"Reference at {self._display_path(path=ref_path)} resolved to "
+                f"{resolved_path} with type {resolved_repr}, expected {expected_repr}"
             )
 
         logger.debug("Reference '%s' validated successfully", ref_str)
@@ -385,7 +387,8 @@ class UnifiedReferencesValidator(ProcessorProtocol):
             return best_match
 
         raise ValueError(
-            f"Unknown reference type for path: {normalized_path}, "
+            f"Unknown reference type for path: "
+            f"{self._display_path(path=normalized_path)}, "
             f"you should extend `REFERENCE_TYPE_MAPPINGS`"
         )
 
@@ -397,10 +400,21 @@ class UnifiedReferencesValidator(ProcessorProtocol):
         return re.sub(r"\[\d+\]", "", normalized_path)
 
     def _escape_path_segment(self, segment: str) -> str:
-        """Escape dots in a path segment so they are not treated as delimiters."""
-        return segment.replace("\\", "\\\\").replace(".", "\\.")
+        """
+        Escape a mapping key for use as a path segment.
+
+        Dots are escaped so they are not treated as delimiters. The leading escape
+        marks the segment as a user-defined key, so it is never mistaken for a field
+        name with the same spelling.
+        """
+        escaped = segment.replace("\\", "\\\\").replace(".", "\\.")
+        return escaped if escaped.startswith("\\") else f"\\{escaped}"
+
+    def _display_path(self, path: str) -> str:
+        """Format a path for error messages, without key escapes."""
+        return ".".join(self._split_path(path=path))
 
-    def _split_path(self, path: str) -> list[str]:
+    def _split_path(self, path: str, unescape: bool = True) -> list[str]:
         """Split a path by dots while honoring escaped dot segments."""
         parts: list[str] = []
         current: list[str] = []
@@ -412,13 +426,15 @@ class UnifiedReferencesValidator(ProcessorProtocol):
                 continue
             if ch == "\\":
                 escaped = True
+                if not unescape:
+                    current.append(ch)
                 continue
             if ch == ".":
                 parts.append("".join(current))
                 current = []
                 continue
             current.append(ch)
-        if escaped:
+        if escaped and unescape:
             current.append("\\")
         parts.append("".join(current))
         return parts
@@ -433,7 +449,7 @@ class UnifiedReferencesValidator(ProcessorProtocol):
         - Other segments may include "*" for a single-segment glob match.
         """
         pattern_parts = self._split_path(path=pattern)
-        path_parts = self._split_path(path=path)
+        path_parts = self._split_path(path=path, unescape=False)
         return self._path_matches_recursive(
             pattern_parts=pattern_parts,
             path_parts=path_parts,
@@ -445,6 +461,9 @@ class UnifiedReferencesValidator(ProcessorProtocol):
         """Match a single path segment against a pattern segment."""
         if pattern_part == "*":
             return True
+        if path_part.startswith("\\"):
+            # User-defined keys match wildcards only, never field names.
+            return False
         if "*" in pattern_part:
             return fnmatch.fnmatch(path_part, pattern_part)
         return pattern_part == path_part
-- 
2.43.0


From 459145c9468fb3881fe3ccf529fee1805f57a2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 05/11] fix: leave a model unchanged when an assignment is
 rejected

---
 asyncapi3/models/base_models.py | 34 +++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/asyncapi3/models/base_models.py b/asyncapi3/models/base_models.py
index 1b10fa5..a26382e 100644
--- a/asyncapi3/models/base_models.py
+++ b/asyncapi3/models/base_models.py
@@ -5,7 +5,8 @@ __all__ = ["ExtendableBaseModel", "NonExtendableBaseModel", "PatternedRootModel"
 import re
 
 from collections.abc import Iterator
-from typing import Generic, TypeVar
+from copy import copy
+from typing import Any, Generic, TypeVar
 
 from pydantic import BaseModel, ConfigDict, RootModel, model_validator
 
@@ -14,7 +15,32 @@ from asyncapi3.models.helpers import validate_patterned_key
 T = TypeVar("T")
 
 
-class ExtendableBaseModel(BaseModel):
+class _AtomicAssignmentMixin:
+    """
+    Mixin that keeps a model unchanged when an assignment is rejected.
+
+    With `validate_assignment` Pydantic stores the new value before it runs "after"
+    model validators, so without a rollback a rejected value would stay in the model.
+    """
+
+    def __setattr__(self, name: str, value: Any) -> None:
+        state = {
+            attribute: copy(getattr(self, attribute, None))
+            for attribute in (
+                "__dict__",
+                "__pydantic_extra__",
+                "__pydantic_fields_set__",
+            )
+        }
+        try:
+            super().__setattr__(name, value)
+        except Exception:
+            for attribute, saved in state.items():
+                object.__setattr__(self, attribute, saved)
+            raise
+
+
+class ExtendableBaseModel(_AtomicAssignmentMixin, BaseModel):
     """
     Base model that allows specification extensions.
 
@@ -54,7 +80,7 @@ class ExtendableBaseModel(BaseModel):
         return self
 
 
-class NonExtendableBaseModel(BaseModel):
+class NonExtendableBaseModel(_AtomicAssignmentMixin, BaseModel):
     """
     Base model that does not allow specification extensions or extra fields.
 
@@ -71,7 +97,7 @@ class NonExtendableBaseModel(BaseModel):
     )
 
 
-class PatternedRootModel(RootModel[dict[str, T]], Generic[T]):
+class PatternedRootModel(_AtomicAssignmentMixin, RootModel[dict[str, T]], Generic[T]):
     """
     Base class for AsyncAPI patterned objects that validate key patterns.
 
-- 
2.43.0


From 67f74ad565ba7ec8f6e44fd55ec7fcef3b7de753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 06/11] fix: check tag references of the traits that messages
 and operations apply

---
 asyncapi3/validators/tags_ref_validator.py | 41 +++++++++++-----------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/asyncapi3/validators/tags_ref_validator.py b/asyncapi3/validators/tags_ref_validator.py
index 61032c5..3077a31 100644
--- a/asyncapi3/validators/tags_ref_validator.py
+++ b/asyncapi3/validators/tags_ref_validator.py
@@ -81,11 +81,16 @@ class TagsRefValidator(ProcessorProtocol):
     ) -> None:
         """Validate tags in a collection of objects."""
         for object_name, obj in objects.items():
-            if not hasattr(obj, "tags") or not obj.tags:
-                continue
-            self._validate_tags_list(
-                spec, obj.tags, context_template.format(name=object_name)
-            )
+            context = context_template.format(name=object_name)
+            self._validate_object_tags(spec, obj, context)
+            for trait in getattr(obj, "traits", None) or []:
+                self._validate_object_tags(spec, trait, f"trait in {context}")
+
+    def _validate_object_tags(self, spec: AsyncAPI3, obj: Any, context: str) -> None:
+        """Validate tags of a single object."""
+        if not hasattr(obj, "tags") or not obj.tags:
+            return
+        self._validate_tags_list(spec, obj.tags, context)
 
     def validate_info_tags_refs(self, spec: AsyncAPI3) -> None:
         """Validate tag references in info object."""
@@ -172,14 +177,11 @@ class TagsRefValidator(ProcessorProtocol):
         for channel_name, channel in spec.channels.root.items():
             if isinstance(channel, Reference) or not channel.messages:
                 continue
-            for message_name, message in channel.messages.root.items():
-                if isinstance(message, Reference) or not message.tags:
-                    continue
-                self._validate_tags_list(
-                    spec,
-                    message.tags,
-                    f"message '{message_name}' in channel '{channel_name}'",
-                )
+            self._validate_tags_in_collection(
+                spec,
+                channel.messages.root,
+                f"message '{{name}}' in channel '{channel_name}'",
+            )
 
     def validate_components_channels_messages_tags_refs(self, spec: AsyncAPI3) -> None:
         """Validate tag references in messages of components channels."""
@@ -188,14 +190,11 @@ class TagsRefValidator(ProcessorProtocol):
         for channel_name, channel in spec.components.channels.root.items():
             if isinstance(channel, Reference) or not channel.messages:
                 continue
-            for message_name, message in channel.messages.root.items():
-                if isinstance(message, Reference) or not message.tags:
-                    continue
-                self._validate_tags_list(
-                    spec,
-                    message.tags,
-                    f"message '{message_name}' in components channel '{channel_name}'",
-                )
+            self._validate_tags_in_collection(
+                spec,
+                channel.messages.root,
+                f"message '{{name}}' in components channel '{channel_name}'",
+            )
 
     def validate_components_tags_refs(self, spec: AsyncAPI3) -> None:
         """Validate tag references in components tags."""
-- 
2.43.0


From 694c39fa332847abf204d500090cda7ed236464c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 07/11] fix: check externalDocs references at every documented
 components location

---
 .../validators/external_docs_ref_validator.py | 62 +++++++++++++++++++
 1 file changed, 62 insertions(+)

diff --git a/asyncapi3/validators/external_docs_ref_validator.py b/asyncapi3/validators/external_docs_ref_validator.py
index 60e190b..307aa95 100644
--- a/asyncapi3/validators/external_docs_ref_validator.py
+++ b/asyncapi3/validators/external_docs_ref_validator.py
@@ -56,13 +56,16 @@ class ExternalDocsRefValidator(ProcessorProtocol):
 
         # Validate externalDocs in all component collections
         self.validate_components_channels_external_docs_refs(spec)
+        self.validate_components_channels_messages_external_docs_refs(spec)
         self.validate_components_external_docs_external_docs_refs(spec)  # self
         self.validate_components_messages_external_docs_refs(spec)
         self.validate_components_messages_headers_external_docs_refs(spec)
         self.validate_components_messages_payload_external_docs_refs(spec)
+        self.validate_components_messages_traits_external_docs_refs(spec)
         self.validate_components_message_traits_external_docs_refs(spec)
         self.validate_components_message_traits_headers_external_docs_refs(spec)
         self.validate_components_operations_external_docs_refs(spec)
+        self.validate_components_operations_traits_external_docs_refs(spec)
         self.validate_components_operation_traits_external_docs_refs(spec)
         self.validate_components_servers_external_docs_refs(spec)
         self.validate_components_tags_external_docs_refs(spec)
@@ -295,6 +298,45 @@ class ExternalDocsRefValidator(ProcessorProtocol):
             context_prefix="components",
         )
 
+    def validate_components_channels_messages_external_docs_refs(
+        self, spec: AsyncAPI3
+    ) -> None:
+        """Validate externalDocs in messages within components channels."""
+        if not spec.components or not spec.components.channels:
+            return
+        for channel_name, channel in spec.components.channels.root.items():
+            if isinstance(channel, Reference) or not channel.messages:
+                continue
+            self._validate_external_docs_collection(
+                collection=channel.messages.root,
+                spec=spec,
+                item_type="message",
+                context_prefix=f"components channel '{channel_name}'",
+            )
+            self._validate_traits_external_docs_refs(
+                spec, channel.messages.root, f"components channel '{channel_name}'"
+            )
+
+    def validate_components_messages_traits_external_docs_refs(
+        self, spec: AsyncAPI3
+    ) -> None:
+        """Validate externalDocs in traits of components messages."""
+        if not spec.components or not spec.components.messages:
+            return
+        self._validate_traits_external_docs_refs(
+            spec, spec.components.messages.root, "components messages"
+        )
+
+    def validate_components_operations_traits_external_docs_refs(
+        self, spec: AsyncAPI3
+    ) -> None:
+        """Validate externalDocs in traits of components operations."""
+        if not spec.components or not spec.components.operations:
+            return
+        self._validate_traits_external_docs_refs(
+            spec, spec.components.operations.root, "components operations"
+        )
+
     def validate_components_external_docs_external_docs_refs(
         self, spec: AsyncAPI3
     ) -> None:
@@ -551,6 +593,26 @@ class ExternalDocsRefValidator(ProcessorProtocol):
                 continue
             self._validate_ref_field(spec, item, f"{prefix}{item_type} '{name}'")
 
+    def _validate_traits_external_docs_refs(
+        self,
+        spec: AsyncAPI3,
+        collection: dict[str, Any],
+        context: str,
+    ) -> None:
+        """Validate externalDocs in the traits (and their tags) of a collection."""
+        for name, item in collection.items():
+            if isinstance(item, Reference) or not item.traits:
+                continue
+            for trait_idx, trait in enumerate(item.traits):
+                if isinstance(trait, Reference):
+                    continue
+                trait_context = f"trait {trait_idx} in '{name}' of {context}"
+                self._validate_ref_field(spec, trait, trait_context)
+                if trait.tags:
+                    self._validate_tags_external_docs_refs(
+                        spec, trait.tags, f"tags in {trait_context}"
+                    )
+
     def _validate_tags_external_docs_refs(
         self,
         spec: AsyncAPI3,
-- 
2.43.0


From 007f54eafb96a5caaed9b5dd77ff2ec84cb6a0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 08/11] fix: follow reference chains of any length without
 recursion

---
 asyncapi3/validators/utils.py | 56 +++++++++++++++++------------------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/asyncapi3/validators/utils.py b/asyncapi3/validators/utils.py
index ead7b3d..5349c24 100644
--- a/asyncapi3/validators/utils.py
+++ b/asyncapi3/validators/utils.py
@@ -46,35 +46,33 @@ def resolve_reference(
     Raises:
         ValueError: If reference format is unsupported, circular, or resolution fails
     """
-    visited_refs = _initialize_visited_refs(ref=ref, visited_refs=visited_refs)
-
-    if _is_external_reference(ref=ref):
-        logger.warning("External reference '%s' cannot be validated locally", ref)
-        return None
-
-    path_parts = _parse_reference_path(ref=ref)
-
-    try:
-        resolved_object, resolved_type, full_path = _resolve_path_parts(
-            spec=spec,
-            path_parts=path_parts,
-        )
-    except AttributeError as exc:
-        raise ValueError(f"Failed to resolve reference '{ref}': {exc}") from exc
-
-    if isinstance(resolved_object, Reference):
-        next_ref = resolved_object.ref
-        return resolve_reference(
-            ref=next_ref,
-            spec=spec,
-            visited_refs=visited_refs,
-        )
-
-    return ReferenceResolutionResult(
-        resolved_object=resolved_object,
-        resolved_type=resolved_type,
-        path=full_path,
-    )
+    # Chains are followed in a loop: their length is not limited by the interpreter's
+    # recursion limit.
+    while True:
+        visited_refs = _initialize_visited_refs(ref=ref, visited_refs=visited_refs)
+
+        if _is_external_reference(ref=ref):
+            logger.warning("External reference '%s' cannot be validated locally", ref)
+            return None
+
+        path_parts = _parse_reference_path(ref=ref)
+
+        try:
+            resolved_object, resolved_type, full_path = _resolve_path_parts(
+                spec=spec,
+                path_parts=path_parts,
+            )
+        except AttributeError as exc:
+            raise ValueError(f"Failed to resolve reference '{ref}': {exc}") from exc
+
+        if not isinstance(resolved_object, Reference):
+            return ReferenceResolutionResult(
+                resolved_object=resolved_object,
+                resolved_type=resolved_type,
+                path=full_path,
+            )
+
+        ref = resolved_object.ref
 
 
 def _initialize_visited_refs(
-- 
2.43.0


From 453425af673fa48f97dce4c207ec18b836bed835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:18 +0000
Subject: [PATCH 09/11] fix: expect tags, docs, correlation ids and security
 inside inline traits

References held by an inline message or operation trait were compared with
the trait type itself, so valid ones were rejected and references to traits
accepted in their place.
---
 asyncapi3/validators/unified_references_validator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asyncapi3/validators/unified_references_validator.py b/asyncapi3/validators/unified_references_validator.py
index 8f87255..f3ca3a9 100644
--- a/asyncapi3/validators/unified_references_validator.py
+++ b/asyncapi3/validators/unified_references_validator.py
@@ -66,6 +66,9 @@ REFERENCE_TYPE_MAPPINGS = {
     "**.message_traits.*": MessageTrait,
     "**.messages.*.traits": MessageTrait,
     "**.messages.*.traits.*": MessageTrait,
+    "**.messages.*.traits.correlation_id": CorrelationID,
+    "**.messages.*.traits.external_docs": ExternalDocumentation,
+    "**.messages.*.traits.tags": Tag,
     "**.message_traits.*.headers": MultiFormatSchema | Schema,
     "**.messages.*.headers": MultiFormatSchema | Schema,
     "**.messages.*.payload": MultiFormatSchema | Schema,
@@ -86,6 +89,9 @@ REFERENCE_TYPE_MAPPINGS = {
     "**.operation_traits.*": OperationTrait,
     "**.operations.*.traits": OperationTrait,
     "**.operations.*.traits.*": OperationTrait,
+    "**.operations.*.traits.external_docs": ExternalDocumentation,
+    "**.operations.*.traits.security": SecurityScheme,
+    "**.operations.*.traits.tags": Tag,
     "**.parameters.*": Parameter,
     "**.*_bindings.*.*.client_id": Schema,
     "**.*_bindings.*.*.correlation_data": Schema,
-- 
2.43.0


From 4e5159001a8e98e70005005ac6f1345d91378493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:46 +0000
Subject: [PATCH 10/11] fix: walk deeply nested values without recursion when
 validating references

---
 .../unified_references_validator.py           | 148 ++++++------------
 1 file changed, 48 insertions(+), 100 deletions(-)

diff --git a/asyncapi3/validators/unified_references_validator.py b/asyncapi3/validators/unified_references_validator.py
index f3ca3a9..aa8561b 100644
--- a/asyncapi3/validators/unified_references_validator.py
+++ b/asyncapi3/validators/unified_references_validator.py
@@ -8,7 +8,7 @@ import fnmatch
 import logging
 import re
 
-from collections.abc import Mapping
+from collections.abc import Iterator, Mapping
 from typing import TYPE_CHECKING, Any, get_args
 
 from pydantic import BaseModel
@@ -207,51 +207,41 @@ class UnifiedReferencesValidator(ProcessorProtocol):
         if visited_objects is None:
             visited_objects = set()
 
-        obj_id = id(obj)
-        if obj_id in visited_objects:
-            return
-        visited_objects.add(obj_id)
-
+        # Free-form values (for example message example payloads) may be nested to
+        # any depth, so walk with an explicit stack instead of the call stack. Each
+        # entry holds the id of an open object and the iterator over its children.
+        stack: list[tuple[int | None, Iterator[tuple[Any, str]]]] = [
+            (None, iter([(obj, current_path)]))
+        ]
         try:
-            if isinstance(obj, Reference):
-                self.validate_reference(
-                    spec=spec,
-                    ref_obj=obj,
-                    ref_path=current_path,
-                    validated_refs=validated_refs,
-                )
-                return
-
-            if isinstance(obj, list):
-                self._validate_list_references(
-                    spec=spec,
-                    items=obj,
-                    current_path=current_path,
-                    validated_refs=validated_refs,
-                    visited_objects=visited_objects,
-                )
-                return
-
-            if isinstance(obj, Mapping):
-                self._validate_mapping_references(
-                    spec=spec,
-                    mapping=obj,
-                    current_path=current_path,
-                    validated_refs=validated_refs,
-                    visited_objects=visited_objects,
-                )
-                return
-
-            if isinstance(obj, BaseModel):
-                self._validate_model_references(
-                    spec=spec,
-                    model=obj,
-                    current_path=current_path,
-                    validated_refs=validated_refs,
-                    visited_objects=visited_objects,
-                )
+            while stack:
+                open_id, children = stack[-1]
+                child = next(children, None)
+                if child is None:
+                    stack.pop()
+                    if open_id is not None:
+                        visited_objects.discard(open_id)
+                    continue
+
+                value, path = child
+                if id(value) in visited_objects:
+                    continue
+
+                if isinstance(value, Reference):
+                    self.validate_reference(
+                        spec=spec,
+                        ref_obj=value,
+                        ref_path=path,
+                        validated_refs=validated_refs,
+                    )
+                    continue
+
+                visited_objects.add(id(value))
+                stack.append((id(value), self._iter_children(value, path)))
         finally:
-            visited_objects.discard(obj_id)
+            visited_objects.difference_update(
+                open_id for open_id, _ in stack if open_id is not None
+            )
 
     def validate_reference(
         self,
@@ -303,66 +293,24 @@ class UnifiedReferencesValidator(ProcessorProtocol):
 
         logger.debug("Reference '%s' validated successfully", ref_str)
 
-    def _validate_list_references(
-        self,
-        spec: AsyncAPI3,
-        items: list[Any],
-        current_path: str,
-        validated_refs: set[str],
-        visited_objects: set[int],
-    ) -> None:
-        """Validate references inside a list."""
-        for i, item in enumerate(items):
-            self.validate_references_recursive(
-                spec=spec,
-                obj=item,
-                current_path=f"{current_path}[{i}]",
-                validated_refs=validated_refs,
-                visited_objects=visited_objects,
-            )
+    def _iter_children(self, obj: Any, path: str) -> Iterator[tuple[Any, str]]:
+        """Yield the values nested directly in an object with their paths."""
+        if isinstance(obj, list):
+            for i, item in enumerate(obj):
+                yield item, f"{path}[{i}]"
 
-    def _validate_mapping_references(
-        self,
-        spec: AsyncAPI3,
-        mapping: Mapping[str, Any],
-        current_path: str,
-        validated_refs: set[str],
-        visited_objects: set[int],
-    ) -> None:
-        """Validate references inside a mapping."""
-        for key, value in mapping.items():
-            escaped_key = self._escape_path_segment(str(key))
-            self.validate_references_recursive(
-                spec=spec,
-                obj=value,
-                current_path=f"{current_path}.{escaped_key}",
-                validated_refs=validated_refs,
-                visited_objects=visited_objects,
-            )
+        elif isinstance(obj, Mapping):
+            for key, value in obj.items():
+                yield value, f"{path}.{self._escape_path_segment(str(key))}"
 
-    def _validate_model_references(
-        self,
-        spec: AsyncAPI3,
-        model: Any,
-        current_path: str,
-        validated_refs: set[str],
-        visited_objects: set[int],
-    ) -> None:
-        """Validate references inside a Pydantic model instance."""
-        for field_name, field_info in model.__class__.model_fields.items():
-            field_value = getattr(model, field_name)
+        elif isinstance(obj, BaseModel):
+            for field_name, field_info in obj.__class__.model_fields.items():
+                field_value = getattr(obj, field_name)
 
-            if field_value is None or field_info.exclude:
-                continue
+                if field_value is None or field_info.exclude:
+                    continue
 
-            field_path = f"{current_path}.{field_name}"
-            self.validate_references_recursive(
-                spec=spec,
-                obj=field_value,
-                current_path=field_path,
-                validated_refs=validated_refs,
-                visited_objects=visited_objects,
-            )
+                yield field_value, f"{path}.{field_name}"
 
     def _get_expected_type_for_path(self, ref_path: str) -> Any:
         """
-- 
2.43.0


From b7b65775f026d54cb6e154b96e842071a4180505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:24 +0000
Subject: [PATCH 11/11] fix: store item assignments under the validated key

---
 asyncapi3/models/base_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncapi3/models/base_models.py b/asyncapi3/models/base_models.py
index a26382e..4d20860 100644
--- a/asyncapi3/models/base_models.py
+++ b/asyncapi3/models/base_models.py
@@ -123,7 +123,7 @@ class PatternedRootModel(_AtomicAssignmentMixin, RootModel[dict[str, T]], Generi
         # Validate the new entry exactly as the constructor would, so that item
         # assignment cannot store an invalid key or value.
         validated = type(self).model_validate({key: value})
-        self.root[key] = validated.root[key]
+        self.root.update(validated.root)
 
     def __delitem__(self, key: str) -> None:
         del self.root[key]
-- 
2.43.0

