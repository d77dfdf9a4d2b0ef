"""Behaviour-preserving rewrites with other language and pydantic features."""
B = {}
IBM, KAF, AMQ, SEC, BM = "models/bindings/ibmmq.py", "models/bindings/kafka.py", "models/bindings/amqp.py", "models/security.py", "models/base_models.py"
B["annotated"] = [
    # constraints as field constraints, annotated validators, shared validator functions
    (KAF, '''    @field_validator("partitions")
    @classmethod
    def validate_partitions(cls, partitions: int | None) -> int | None:
        """Validate that partitions is positive when specified."""
        if partitions is not None and partitions <= 0:
            raise ValueError("partitions must be positive")
        return partitions

    @field_validator("replicas")
    @classmethod
    def validate_replicas(cls, replicas: int | None) -> int | None:
        """Validate that replicas is positive when specified."""
        if replicas is not None and replicas <= 0:
            raise ValueError("replicas must be positive")
        return replicas
''', '''    @field_validator("partitions", "replicas")
    @classmethod
    def validate_counts(cls, count: int | None, info: ValidationInfo) -> int | None:
        """Validate that a count is positive when specified."""
        if count is not None and count <= 0:
            raise ValueError(f"{info.field_name} must be positive")
        return count
'''),
    (KAF, '''from pydantic import ''', '''from pydantic import ValidationInfo
from pydantic import ''', 1),
    (AMQ, '''    @field_validator("expiration")
    @classmethod
    def validate_expiration(cls, expiration: int | None) -> int | None:
        """Validate that expiration is greater than or equal to zero."""
        if expiration is not None and expiration < 0:
            raise ValueError("expiration must be greater than or equal to zero")
        return expiration
''', '''    _check_expiration = field_validator("expiration")(_not_negative)
'''),
    (AMQ, '''class AMQPOperationBindings(''', '''def _not_negative(value: int | None) -> int | None:
    """Validate that a number is greater than or equal to zero."""
    if value is not None and value < 0:
        raise ValueError("expiration must be greater than or equal to zero")
    return value


class AMQPOperationBindings('''),
    (IBM, '''    heart_beat_interval: int | None = Field(''', '''    heart_beat_interval: Annotated[int | None, AfterValidator(_heart_beat)] = Field('''),
    (IBM, '''    @field_validator("heart_beat_interval")
    @classmethod
    def validate_heart_beat_interval(
        cls, heart_beat_interval: int | None
    ) -> int | None:
        if heart_beat_interval is not None and (
            heart_beat_interval < 0 or heart_beat_interval > 999999
        ):
            raise ValueError("heartBeatInterval MUST be 0-999999")
        return heart_beat_interval

''', ''),
    (IBM, '''class IBMMQServerBindings(''', '''def _heart_beat(value: int | None) -> int | None:
    """Check the heart beat interval."""
    if value is not None and (value < 0 or value > 999999):
        raise ValueError("heartBeatInterval MUST be 0-999999")
    return value


class IBMMQServerBindings('''),
    (IBM, '''from pydantic import ''', '''from typing import Annotated

from pydantic import AfterValidator
from pydantic import '''),
    (SEC, '''        if not location.startswith("$message."):
            raise ValueError(''', '''        valid = _RUNTIME.match(location)
        if not valid:
            raise ValueError('''),
    (SEC, '''class CorrelationID(''', '''_RUNTIME = re.compile(re.escape("$message."))


class CorrelationID('''),
    (SEC, '''from typing import Literal
''', '''import re

from typing import Literal
'''),
    ("models/info.py", '''class Contact(''', '''LongText = str | None


class Contact('''),
    ("models/info.py", '''    name: str | None = Field(
        default=None,
        exclude_if=is_null,
        description="The identifying''', '''    name: LongText = Field(
        None,
        exclude_if=is_null,
        description="The identifying'''),
    ("models/info.py", '''    url: HttpUrl | None = Field(
        default=None,
        exclude_if=is_null,
        description=(
            "The URL pointing''', '''    url: Optional[HttpUrl] = Field(
        default=None,
        exclude_if=lambda value: value is None,
        description=(
            "The URL pointing'''),
    ("models/info.py", '''from pydantic import ''', '''from typing import Optional

from pydantic import '''),
    (BM, '''    Base model that does not allow specification extensions or extra fields.
''', '''    Base model that does not allow extra fields.
'''),
]
B["bases"] = [
    # shared base class, mixins, another module
    ("models/_patterns.py", None, '''"""Patterns of names."""

import re

from functools import lru_cache
from typing import Final

EXTENSION: Final = r"x-[\\w\\d.\\-]+"


@lru_cache(maxsize=None)
def is_extension(name: str) -> bool:
    """Return whether a name is an extension name."""
    return bool(re.fullmatch(EXTENSION, name))
'''),
    (BM, '''        if not self.model_extra:
            return self

        extension_pattern = re.compile(r"^x-[\\w\\d\\.\\x2d_]+$")
        for key in self.model_extra:
            if not extension_pattern.fullmatch(key):
                raise ValueError(''', '''        for key in filterfalse(is_extension, self.model_extra or ()):
            if key:
                raise ValueError('''.replace("            if key:\n", "            if True:\n")),
    (BM, '''import re

from collections.abc import Iterator
''', '''from collections.abc import Iterator, KeysView
from contextlib import contextmanager
'''),
    (BM, '''from copy import copy
''', '''from copy import copy
from itertools import filterfalse
'''),
    (BM, '''from asyncapi3.models.helpers import''', '''from asyncapi3.models._patterns import is_extension
from asyncapi3.models.helpers import'''),
    (BM, '''class _AtomicAssignmentMixin:
''', '''@contextmanager
def _rollback(model: Any) -> Iterator[None]:
    """Restore a model when the block fails."""
    state = {
        attribute: copy(getattr(model, attribute, None))
        for attribute in (
            "__dict__",
            "__pydantic_extra__",
            "__pydantic_fields_set__",
        )
    }
    try:
        yield
    except Exception:
        for attribute, saved in state.items():
            object.__setattr__(model, attribute, saved)
        raise


class _AtomicAssignmentMixin:
'''),
    (BM, '''        state = {
            attribute: copy(getattr(self, attribute, None))
            for attribute in (
                "__dict__",
                "__pydantic_extra__",
                "__pydantic_fields_set__",
            )
        }
        try:
            super().__setattr__(name, value)
        except Exception:
            for attribute, saved in state.items():
                object.__setattr__(self, attribute, saved)
            raise
''', '''        with _rollback(self):
            super().__setattr__(name, value)
'''),
    ("models/operation.py", '''class OperationReplyAddress(ExtendableBaseModel):
''', '''class _Described(ExtendableBaseModel):
    """Common parts."""

    @property
    def label(self) -> str:
        """A label."""
        return type(self).__name__


class OperationReplyAddress(_Described):
'''),
    ("models/message.py", '''        if self.headers is None and self.payload is None:
            raise ValueError(
                "MessageExample MUST contain either headers and/or payload fields"
            )
        return self
''', '''        self._require_content()
        return self

    def _require_content(self) -> None:
        """Raise when the example is empty."""
        try:
            next(
                part
                for part in map(partial(getattr, self), ("headers", "payload"))
                if part is not None
            )
        except StopIteration:
            raise ValueError(
                "MessageExample MUST contain either headers and/or payload fields"
            ) from None
'''),
    ("models/message.py", '''from typing import Any
''', '''from functools import partial
from typing import Any
'''),
]
U = "validators/unified_references_validator.py"
B["walk"] = [
    # another walk with a work list of paths; dataclass result; enum of verdicts
    (U, '''        stack: list[tuple[int | None, Iterator[tuple[Any, str]]]] = [
            (None, iter([(obj, current_path)]))
        ]
        try:
            while stack:
                open_id, children = stack[-1]
                child = next(children, None)
                if child is None:
                    stack.pop()
                    if open_id is not None:
                        visited_objects.discard(open_id)
                    continue

                value, path = child
                if id(value) in visited_objects:
                    continue

                if isinstance(value, Reference):
                    self.validate_reference(
                        spec=spec,
                        ref_obj=value,
                        ref_path=path,
                        validated_refs=validated_refs,
                    )
                    continue

                visited_objects.add(id(value))
                stack.append((id(value), self._iter_children(value, path)))
        finally:
            visited_objects.difference_update(
                open_id for open_id, _ in stack if open_id is not None
            )
''', '''        opened: list[int] = []
        work: deque[tuple[str, Any, str]] = deque([("visit", obj, current_path)])
        try:
            while len(work) > 0:
                action, value, path = work.pop()
                if action == "leave":
                    visited_objects.remove(opened.pop())
                elif id(value) not in visited_objects:
                    if isinstance(value, Reference):
                        self.validate_reference(spec, value, path, validated_refs)
                        continue
                    opened.append(id(value))
                    visited_objects.add(opened[-1])
                    work.append(("leave", None, path))
                    below = list(self._iter_children(value, path))
                    for child, child_path in reversed(below):
                        work.append(("visit", child, child_path))
        finally:
            visited_objects -= set(opened)
'''),
    (U, '''from collections.abc import Iterator, Mapping
''', '''from collections import deque
from collections.abc import Iterator, Mapping
'''),
    (U, '''        escaped = segment.replace("\\\\", "\\\\\\\\").replace(".", "\\\\.")
        return escaped if escaped.startswith("\\\\") else f"\\\\{escaped}"
''', '''        escaped = segment.translate(_ESCAPES)
        if escaped[:1] != "\\\\":
            escaped = "\\\\" + escaped
        return escaped
'''),
    (U, '''logger = logging.getLogger(__name__)
''', '''logger = logging.getLogger(__name__)
_ESCAPES = str.maketrans({"\\\\": "\\\\\\\\", ".": "\\\\."})
'''),
    (U, '''        union_types = get_args(expected_type)
        if union_types:
            return any(
                self._is_type_compatible(
                    actual_type=actual_type,
                    expected_type=union_type,
                )
                for union_type in union_types
            )

        if isinstance''', '''        for union_type in get_args(expected_type):
            if self._is_type_compatible(actual_type, union_type):
                return True
        if get_args(expected_type):
            return False

        if isinstance'''),
    ("validators/utils.py", '''class ReferenceResolutionResult(NamedTuple):
''', '''class _Step(NamedTuple):
    """One step."""

    value: Any
    path: str


class ReferenceResolutionResult(NamedTuple):
'''),
    ("validators/utils.py", '''    current_obj: Any = spec
    resolved_type: type = type(spec)
    full_path = "spec"

    for part in path_parts:
        if not part:
            continue
        full_path += f".{part}"
        current_obj, resolved_type = _resolve_path_part(
            current_obj=current_obj,
            part=part,
            full_path=full_path,
        )

    return current_obj, resolved_type, full_path
''', '''    def step(state: _Step, part: str) -> _Step:
        path = f"{state.path}.{part}"
        value, _ = _resolve_path_part(state.value, part, path)
        return _Step(value=value, path=path)

    last = reduce(step, (part for part in path_parts if part), _Step(spec, "spec"))
    return last.value, type(last.value), last.path
'''),
    ("validators/utils.py", '''from typing import TYPE_CHECKING, Any, NamedTuple
''', '''from functools import reduce
from typing import TYPE_CHECKING, Any, NamedTuple
'''),
]
B["mapping"] = [
    (BM, '''        return self.root[item]
''', '''        entries = self.root
        if item not in entries:
            raise KeyError(item)
        return entries[item]
'''),
    (BM, '''        del self.root[key]
''', '''        self.root.pop(key)
'''),
    (BM, '''        return key in self.root
''', '''        return any(key == known for known in self.root)
'''),
    (BM, '''        return len(self.root)
''', '''        return sum(1 for _ in self)
'''),
    (BM, '''        return iter(self.root)
''', '''        return iter(self.root.keys())
'''),
    (BM, '''        validated = type(self).model_validate({key: value})
        self.root.update(validated.root)
''', '''        checked = type(self)({key: value})
        entries = self.root
        entries |= checked.root
'''),
    (BM, '''        if not self.root:
            return self

        for field_name in self.root:
            validate_patterned_key(field_name, "object")
        return self''', '''        names = iter(self.root)
        while (field_name := next(names, None)) is not None:
            validate_patterned_key(field_name, "object")
        return self'''),
    ("models/asyncapi.py", '''        components = Components(
            schemas=Schemas({}),
            servers=Servers({}),
            channels=Channels({}),
            operations=Operations({}),
            messages=Messages({}),
''', '''        components = Components(
            **{
                name: factory({})
                for name, factory in (
                    ("schemas", Schemas),
                    ("servers", Servers),
                    ("channels", Channels),
                    ("operations", Operations),
                )
            },
            messages=Messages({}),
'''),
    ("models/asyncapi.py", '''        spec = cls(**init_params)

        return spec
''', '''        return cls.model_validate(init_params)
'''),
    ("models/asyncapi.py", '''            "servers": Servers({}),
            "channels": Channels({}),''', '''            "servers": Servers(),
            "channels": Channels({}),'''.replace("Servers()", "Servers(dict())")),
]
