"""Behaviour-preserving rewrites: field factories, shared configuration, hooks that pass through, dispatch tables."""
import re as _re
B = {}
BM, SEC, AS, U, T, R = ("models/base_models.py", "models/security.py", "models/asyncapi.py", "validators/unified_references_validator.py",
                        "validators/tags_ref_validator.py", "validators/utils.py")
_OPT = '''Field(
        default=None,
        exclude_if=is_null,'''
B["fields"] = [
    ("models/helpers.py", '''def is_null(''', '''def optional(**options: Any) -> Any:
    """Declare a field that may be left out."""
    options.setdefault("default", None)
    return Field(exclude_if=is_null, **options)


def is_null('''),
    ("models/helpers.py", '''from pydantic import ''', '''from pydantic import Field
from pydantic import '''),
    ("models/server.py", _OPT, "optional(", 1),
    ("models/server.py", "import is_null", "import optional"),
    ("models/channel.py", _OPT, "OPTIONAL(", 1),
    ("models/channel.py", '''class Parameter(''', '''OPTIONAL = partial(Field, default=None, exclude_if=is_null)


class Parameter('''),
    ("models/channel.py", '''from pydantic import ''', '''from functools import partial

from pydantic import '''),
    ("models/bindings/solace.py", _OPT, "Field(**_ABSENT,", 1),
    ("models/bindings/solace.py", '''class SolaceServerBindings(''', '''_ABSENT: dict[str, Any] = {"default": None, "exclude_if": is_null}


class SolaceServerBindings('''),
    ("models/operation.py", _OPT, '''Field(
        default_factory=lambda: None,
        exclude_if=is_null,''', 1),
]
B["processors"] = [
    (AS, '''        self._run_extra_converters()
        self._run_extra_validators()
        return self

    def _run_extra_converters(self) -> None:
        """Run extra converters for cross-model optimizations."""
        if self.extra_converters:
            for converter_cls in self.extra_converters:
                processor = converter_cls()
                processor(self)

    def _run_extra_validators(self) -> None:
        """Run extra validators after converters."""
        if self.extra_validators:
            for validator_cls in self.extra_validators:
                processor = validator_cls()
                processor(self)
''', '''        for processor in self._processors():
            processor(self)
        return self

    def _processors(self) -> "Iterator[ProcessorProtocol]":
        """Yield fresh processors: converters first, then validators."""
        stages = (self.extra_converters, self.extra_validators)
        for factory in chain.from_iterable(filter(None, stages)):
            yield factory()
'''),
    (AS, '''import re

from typing import ''', '''import re

from collections.abc import Iterator
from itertools import chain
from typing import '''),
]
_CFG = '''
        revalidate_instances="always",
        validate_assignment=True,
        serialize_by_alias=True,
        validate_by_name=True,
        validate_by_alias=True,
    )
'''
B["inherit"] = [
    (BM, '''class ExtendableBaseModel(_AtomicAssignmentMixin, BaseModel):''', '''_COMMON = ConfigDict(
    revalidate_instances="always",
    validate_assignment=True,
    serialize_by_alias=True,
    validate_by_name=True,
    validate_by_alias=True,
)


class _Model(_AtomicAssignmentMixin, BaseModel):
    """Common base of the non-root models."""

    model_config = _COMMON


class ExtendableBaseModel(_Model, extra="allow"):'''),
    (BM, '''    model_config = ConfigDict(
        extra="allow",''' + _CFG, ''''''),
    (BM, '''class NonExtendableBaseModel(_AtomicAssignmentMixin, BaseModel):''', '''class NonExtendableBaseModel(_Model):'''),
    (BM, '''    model_config = ConfigDict(
        extra="forbid",''' + _CFG, '''    model_config = ConfigDict(extra="forbid")
'''),
    (BM, '''    model_config = ConfigDict(''' + _CFG, '''    model_config = ConfigDict(**_COMMON)
'''),
]
B["passthrough"] = [
    (BM, '''    @model_validator(mode="after")
    def validate_extensions(self)''', '''    @model_validator(mode="before")
    @classmethod
    def _own_copy(cls, data: Any) -> Any:
        """Work on a copy of the given fields."""
        return dict(data) if isinstance(data, dict) else data

    @model_serializer(mode="wrap")
    def _serialize(self, handler: SerializerFunctionWrapHandler) -> Any:
        """Serialize the usual way."""
        return handler(self)

    def model_post_init(self, context: Any, /) -> None:
        """Nothing to prepare."""
        super().model_post_init(context)

    @model_validator(mode="after")
    def validate_extensions(self)'''),
    (BM, '''    @model_validator(mode="after")
    def validate_patterned_keys(self)''', '''    def keys(self) -> Iterable[str]:
        """Names of the entries."""
        return self.root.keys()

    def items(self) -> Iterable[tuple[str, T]]:
        """The entries."""
        return self.root.items()

    def get(self, key: str, default: T | None = None) -> T | None:
        """One entry or the default."""
        return self.root.get(key, default)

    def __eq__(self, other: object) -> bool:
        return super().__eq__(other)

    @model_validator(mode="wrap")
    @classmethod
    def _validate(cls, data: Any, handler: ValidatorFunctionWrapHandler) -> Any:
        """Validate the usual way."""
        return handler(data)

    @model_validator(mode="after")
    def validate_patterned_keys(self)'''),
    (BM, '''from collections.abc import Iterator''', '''from collections.abc import Iterable, Iterator'''),
    (BM, '''from pydantic import ''', '''from pydantic import (
    SerializerFunctionWrapHandler,
    ValidatorFunctionWrapHandler,
    model_serializer,
)
from pydantic import ''', 1),
    ("models/base.py", '''        return self.ref.__hash__()
''', '''        return hash(self.ref)

    def __eq__(self, other: object) -> bool:
        if type(other) is not type(self):
            return NotImplemented
        return self.ref == other.ref

    def __str__(self) -> str:
        return self.ref
'''),
    ("models/security.py", '''    @field_validator("location")
    @classmethod
    def validate_runtime_expression(cls, location: str) -> str:''', '''    @field_validator("*", mode="before")
    @classmethod
    def _as_given(cls, value: Any) -> Any:
        """Take values as they are given."""
        return value

    @field_validator("location", mode="after")
    @classmethod
    def validate_runtime_expression(cls, location: str) -> str:'''),
    ("models/security.py", "from typing import Literal", "from typing import Any, Literal"),
]
B["assign"] = [
    (BM, '''        state = {
            attribute: copy(getattr(self, attribute, None))
            for attribute in (
                "__dict__",
                "__pydantic_extra__",
                "__pydantic_fields_set__",
            )
        }
        try:
            super().__setattr__(name, value)
        except Exception:
            for attribute, saved in state.items():
                object.__setattr__(self, attribute, saved)
            raise
''', '''        fields = dict(self.__dict__)
        extra = getattr(self, "__pydantic_extra__", None)
        extra = None if extra is None else {**extra}
        fields_set = set(getattr(self, "__pydantic_fields_set__", ()))
        try:
            super().__setattr__(name, value)
        except Exception:
            object.__setattr__(self, "__dict__", fields)
            object.__setattr__(self, "__pydantic_extra__", extra)
            object.__setattr__(self, "__pydantic_fields_set__", fields_set)
            raise
'''),
    (BM, '''from copy import copy
''', ''),
    (BM, '''        for key in self.model_extra:
            if not extension_pattern.fullmatch(key):
                raise ValueError(
                    f"Field '{key}' does''', '''        wrong = [key for key in self.model_extra if not extension_pattern.fullmatch(key)]
        if wrong:
            key = wrong[0]
            if True:
                raise ValueError(
                    f"Field '{key}' does'''),
    (BM, '''        for field_name in self.root:
            validate_patterned_key(field_name, "object")
        return self''', '''        list(map(self._check_key, self.root))
        return self

    @staticmethod
    def _check_key(name: str) -> None:
        """Check one key."""
        validate_patterned_key(key=name)'''),
    (BM, '''        validated = type(self).model_validate({key: value})
        self.root.update(validated.root)
''', '''        for name, entry in self.__class__(root={key: value}).root.items():
            self.root[name] = entry
'''),
]
B["lookup"] = [
    (U, '''        best_match = None
        best_score = None
        for pattern, expected_type in REFERENCE_TYPE_MAPPINGS.items():
            if not self._path_matches(pattern=pattern, path=normalized_path):
                continue
            score = self._pattern_specificity(pattern=pattern)
            if best_score is None or score > best_score:
                best_match = expected_type
                best_score = score

        if best_match is not None:
            return best_match

        raise''', '''        candidates = {
            pattern: self._pattern_specificity(pattern=pattern)
            for pattern in REFERENCE_TYPE_MAPPINGS
            if self._path_matches(pattern=pattern, path=normalized_path)
        }
        if candidates:
            best = max(candidates, key=candidates.__getitem__)
            return REFERENCE_TYPE_MAPPINGS[best]

        raise'''),
    (U, '''        if isinstance(obj, list):
            for i, item in enumerate(obj):
                yield item, f"{path}[{i}]"

        elif isinstance(obj, Mapping):
            for key, value in obj.items():
                yield value, f"{path}.{self._escape_path_segment(str(key))}"

        elif isinstance(obj, BaseModel):
            for field_name, field_info in obj.__class__.model_fields.items():
                field_value = getattr(obj, field_name)

                if field_value is None or field_info.exclude:
                    continue

                yield field_value, f"{path}.{field_name}"
''', '''        match obj:
            case list():
                yield from (
                    (item, f"{path}[{i}]") for i, item in enumerate(obj)
                )
            case Mapping():
                for key in obj:
                    segment = self._escape_path_segment(str(key))
                    yield obj[key], ".".join((path, segment))
            case BaseModel():
                yield from self._iter_fields(obj, path)

    @staticmethod
    def _iter_fields(obj: BaseModel, path: str) -> Iterator[tuple[Any, str]]:
        """Yield the set fields of a model."""
        shown = {
            name: info
            for name, info in type(obj).model_fields.items()
            if not info.exclude
        }
        for name in shown:
            if (value := getattr(obj, name)) is not None:
                yield value, f"{path}.{name}"
'''),
    (U, '''        normalized_path = ref_path.replace(".root.", ".")
        if normalized_path.endswith(".root"):
            normalized_path = normalized_path[: -len(".root")]
        return re.sub(r"\\[\\d+\\]", "", normalized_path)
''', '''        return _INDEX.sub(
            "", ref_path.replace(".root.", ".").removesuffix(".root")
        )
'''),
    (U, '''logger = logging.getLogger(__name__)
''', '''logger = logging.getLogger(__name__)
_INDEX = re.compile(r"\\[[0-9]+\\]")
'''),
    (U, '''        return (
            literal_segments,
            -double_wildcards,
            -wildcard_segments,
            segment_count,
        )
''', '''        score = [literal_segments, -double_wildcards, -wildcard_segments]
        score.append(segment_count)
        return tuple(score)  # type: ignore[return-value]
'''),
    (R, '''    for name, field_info in current_obj.__class__.model_fields.items():
        if name == part:
            return name
        if hasattr(field_info, "alias") and field_info.alias == part:
            return name
    return None
''', '''    names: dict[str, str] = {}
    for name, field_info in type(current_obj).model_fields.items():
        names.setdefault(name, name)
        alias = getattr(field_info, "alias", None)
        if alias:
            names.setdefault(alias, name)
    return names.get(part)
'''),
    (R, '''    return hasattr(obj, "root") and isinstance(obj.root, dict)
''', '''    return isinstance(getattr(obj, "root", None), dict)
'''),
    (T, '''        for tag in tags:
            if not isinstance(tag, Reference):
                continue
            self.validate_tag_ref(spec, tag, context)
''', '''        for tag in filter(lambda item: isinstance(item, Reference), tags):
            self.validate_tag_ref(spec, tag, context)
'''),
    (T, '''        if not hasattr(obj, "tags") or not obj.tags:
            return
        self._validate_tags_list(spec, obj.tags, context)
''', '''        if tags := getattr(obj, "tags", None):
            self._validate_tags_list(spec, tags, context)
'''),
]
B["flows"] = [
    (SEC, '''        self._validate_implicit_flow()
        self._validate_password_flow()
        self._validate_client_credentials_flow()
        self._validate_authorization_code_flow()
        return self
''', '''        for check in (
            self._validate_implicit_flow,
            self._validate_password_flow,
            self._validate_client_credentials_flow,
            self._validate_authorization_code_flow,
        ):
            check()
        return self
'''),
    (SEC, '''        if self.authorization_code is not None:
            if self.authorization_code.authorization_url is None:
                raise ValueError(
                    "authorizationUrl is required for authorizationCode flow"
                )
            if self.authorization_code.token_url is None:
                raise ValueError("tokenUrl is required for authorizationCode flow")
''', '''        flow = self.authorization_code
        if flow is None:
            return
        for attribute in ("authorization_url", "token_url"):
            if getattr(flow, attribute) is not None:
                continue
            wire_name = to_camel(attribute)
            raise ValueError(f"{wire_name} is required for authorizationCode flow")
'''),
    (SEC, '''from pydantic import ''', '''from pydantic.alias_generators import to_camel
from pydantic import '''),
    ("models/bindings/amqp.py", '''        if self.is_ == "routingKey":
            if self.exchange is None:
                raise ValueError("exchange must be provided when is='routingKey'")
            if self.queue is not None:
                raise ValueError("queue must not be provided when is='routingKey'")
        elif self.is_ == "queue":
            if self.queue is None:
                raise ValueError("queue must be provided when is='queue'")
            if self.exchange is not None:
                raise ValueError("exchange must not be provided when is='queue'")
        return self
''', '''        needed, banned = {
            "routingKey": ("exchange", "queue"),
            "queue": ("queue", "exchange"),
        }[self.is_]
        if getattr(self, needed) is None:
            raise ValueError(f"{needed} must be provided when is='{self.is_}'")
        if getattr(self, banned) is not None:
            raise ValueError(f"{banned} must not be provided when is='{self.is_}'")
        return self
'''),
    ("models/bindings/solace.py", '''        if isinstance(priority, int) and (priority < 0 or priority > 255):
            raise''', '''        if isinstance(priority, int) and not 0 <= priority <= 255:
            raise'''),
    ("models/bindings/ibmmq.py", '''        if max_msg_length is not None and (
            max_msg_length < 0 or max_msg_length > 104857600
        ):
            raise''', '''        if max_msg_length is None:
            return None
        if max_msg_length != min(max(max_msg_length, 0), 100 * 1024 * 1024):
            raise'''),
    ("models/bindings/ibmmq.py", '''        if heart_beat_interval is not None and (
            heart_beat_interval < 0 or heart_beat_interval > 999999
        ):
            raise''', '''        limit = 10**6
        if heart_beat_interval is not None and not (-1 < heart_beat_interval < limit):
            raise'''),
]
