"""Behaviour-preserving rewrites, hand-written."""
B = {}
B["helpers"] = [
    # module-level regexes, split helper, other exception structure
    ("models/helpers.py", '''def is_null(value: Any)''', '''_KEY_CHARS = "A-Za-z0-9_-"
_KEY_RE = re.compile(f"[{_KEY_CHARS}]+")
_EMAIL_RE = re.compile(r"(?!.*\\.\\.)[a-zA-Z0-9._%+-]+@[a-zA-Z0-9.-]+\\.[a-zA-Z]{2,}")


def is_null(value: Any)'''),
    ("models/helpers.py", '''    pattern = re.compile(r"^[A-Za-z0-9_\\-]+$")
    try:
        if not pattern.fullmatch(key):
            raise ValueError(
                f"Field '{key}' does not match patterned object key pattern. "
                "Keys must contain letters, digits, hyphens, and underscores."
            )
    except TypeError as error:
        raise TypeError(
            f"Key '{key}' must be a string, got {type(key).__name__}"
        ) from error
''', '''    if not isinstance(key, str):
        raise TypeError(f"Key '{key}' must be a string, got {type(key).__name__}")
    if _KEY_RE.fullmatch(key) is None:
        msg = "Field '{}' does not match patterned object key pattern. {}"
        hint = "Keys must contain letters, digits, hyphens, and underscores."
        raise ValueError(msg.format(key, hint))
'''),
    ("models/helpers.py", '''        pattern = r"^(?!.*\\.\\.)[a-zA-Z0-9._%+-]+@[a-zA-Z0-9.-]+\\.[a-zA-Z]{2,}$"
        if not re.fullmatch(pattern, value):
            raise ValueError("Invalid email format")
        return value
''', '''        match = _EMAIL_RE.fullmatch(value)
        if match:
            return value
        raise ValueError("Invalid email format")
'''),
    ("models/helpers.py", '''            lambda value: cls(cls._validate_email(value)), handler(str)
''', '''            cls._build, handler(str)
'''),
    ("models/helpers.py", '''    @classmethod
    def __get_pydantic_core_schema__(''', '''    @classmethod
    def _build(cls, value: str) -> "EmailStr":
        """Check and convert."""
        return cls(cls._validate_email(value))

    @classmethod
    def __get_pydantic_core_schema__('''),
]
B["base_models"] = [
    ("models/base_models.py", '''    model_config = ConfigDict(
        extra="allow",
        revalidate_instances="always",
        validate_assignment=True,
        serialize_by_alias=True,
        validate_by_name=True,
        validate_by_alias=True,
    )

    @model_validator''', '''    model_config = ConfigDict(extra="allow", **_COMMON)

    @model_validator'''),
    ("models/base_models.py", '''    model_config = ConfigDict(
        extra="forbid",
        revalidate_instances="always",
        validate_assignment=True,
        serialize_by_alias=True,
        validate_by_name=True,
        validate_by_alias=True,
    )
''', '''    model_config = ConfigDict(extra="forbid", **_COMMON)
'''),
    ("models/base_models.py", '''    model_config = ConfigDict(
        revalidate_instances="always",
        validate_assignment=True,
        serialize_by_alias=True,
        validate_by_name=True,
        validate_by_alias=True,
    )

    def __iter__''', '''    model_config = ConfigDict(**_COMMON)

    def __iter__'''),
    ("models/base_models.py", '''T = TypeVar("T")
''', '''T = TypeVar("T")

_COMMON: dict[str, Any] = {
    "revalidate_instances": "always",
    "validate_assignment": True,
    "serialize_by_alias": True,
    "validate_by_name": True,
    "validate_by_alias": True,
}
_EXTENSION = re.compile(r"x-[\\w.\\-]+")
_STATE = ("__dict__", "__pydantic_extra__", "__pydantic_fields_set__")
'''),
    ("models/base_models.py", '''        if not self.model_extra:
            return self

        extension_pattern = re.compile(r"^x-[\\w\\d\\.\\x2d_]+$")
        for key in self.model_extra:
            if not extension_pattern.fullmatch(key):
                raise ValueError(
                    f"Field '{key}' does not match specification extension pattern. "
                    f"Extensions must start with 'x-' and contain only word "
                    f"characters, digits, dots, hyphens, and underscores."
                )
        return self
''', '''        bad = next(
            (key for key in self.model_extra or {} if not _EXTENSION.fullmatch(key)),
            None,
        )
        if bad is not None:
            raise ValueError(
                f"Field '{bad}' does not match specification extension pattern. "
                f"Extensions must start with 'x-' and contain only word "
                f"characters, digits, dots, hyphens, and underscores."
            )
        return self
'''),
    ("models/base_models.py", '''        state = {
            attribute: copy(getattr(self, attribute, None))
            for attribute in (
                "__dict__",
                "__pydantic_extra__",
                "__pydantic_fields_set__",
            )
        }
        try:''', '''        state = [(name_, copy(getattr(self, name_, None))) for name_ in _STATE]
        try:'''),
    ("models/base_models.py", '''            for attribute, saved in state.items():
''', '''            for attribute, saved in state:
'''),
    ("models/base_models.py", '''        validated = type(self).model_validate({key: value})
        self.root.update(validated.root)
''', '''        entry = self.__class__.model_validate({key: value}).root
        for name, item in entry.items():
            self.root[name] = item
'''),
    ("models/base_models.py", '''        return iter(self.root)
''', '''        yield from self.root
'''),
    ("models/base_models.py", '''        if not self.root:
            return self

        for field_name in self.root:
            validate_patterned_key(field_name, "object")
        return self''', '''        for field_name in list(self.root.keys()):
            validate_patterned_key(key=field_name)
        return self'''),
]
B["version"] = [
    ("models/asyncapi.py", '''        pattern = r"^\\d+\\.\\d+\\.\\d+(-[\\w\\.\\-]+)?$"
        if not re.fullmatch(pattern, version):
            raise''', '''        parsed = _VERSION.fullmatch(version)
        if parsed is None:
            raise'''),
    ("models/asyncapi.py", '''        major_version = int(version.split(".")[0])
        if major_version != 3:
''', '''        if int(parsed.group("major")) != _MAJOR:
'''),
    ("models/asyncapi.py", '''class AsyncAPI3(''', '''_MAJOR = 3
_VERSION = re.compile(r"(?P<major>\\d+)\\.\\d+\\.\\d+(?:-[\\w.-]+)?")


class AsyncAPI3('''),
    ("models/asyncapi.py", '''        if self.extra_converters:
            for converter_cls in self.extra_converters:
                processor = converter_cls()
                processor(self)
''', '''        self._run_all(self.extra_converters)
'''),
    ("models/asyncapi.py", '''        if self.extra_validators:
            for validator_cls in self.extra_validators:
                processor = validator_cls()
                processor(self)
''', '''        self._run_all(self.extra_validators)

    def _run_all(self, classes: list[type[ProcessorProtocol]] | None) -> None:
        """Instantiate and call processors in order."""
        for processor_cls in classes or ():
            processor_cls()(self)
'''),
    ("models/asyncapi.py", '''        components = Components(
            schemas=Schemas({}),
            servers=Servers({}),''', '''        components = Components(
            schemas=Schemas(root={}),
            servers=Servers({}),'''),
    ("models/asyncapi.py", '''            **kwargs,
        }
        spec = cls(**init_params)

        return spec
''', '''        }
        init_params.update(kwargs)
        return cls(**init_params)
'''),
    ("models/asyncapi.py", '''        info = Info(
            title=title,
            version=version,
            description=description,
            terms_of_service=terms_of_service,
            contact=contact,
            license=license,
            tags=tags,
            external_docs=external_docs,
        )
''', '''        about = {
            "title": title,
            "version": version,
            "description": description,
            "terms_of_service": terms_of_service,
            "contact": contact,
            "license": license,
            "tags": tags,
            "external_docs": external_docs,
        }
        info = Info(**about)
'''),
]
B["security"] = [
    ("models/security.py", '''        self._validate_api_key_requirements()
        self._validate_bearer_format_requirements()
        self._validate_http_api_key_requirements()
        self._validate_http_requirements()
        self._validate_oauth2_requirements()
        self._validate_openid_connect_requirements()
        self._validate_scopes_requirements()

        return self
''', '''        for check in (
            self._validate_scopes_requirements,
            self._validate_api_key_requirements,
            self._validate_bearer_format_requirements,
            self._validate_http_api_key_requirements,
            self._validate_http_requirements,
            self._validate_oauth2_requirements,
            self._validate_openid_connect_requirements,
        ):
            check()
        return self
'''),
    ("models/security.py", '''        if self.type_ == "apiKey":
            if self.in_ is None:
                raise ValueError("in is required for apiKey type")
            if self.in_ not in ("user", "password"):
                raise ValueError("in must be 'user' or 'password' for apiKey type")
''', '''        if self.type_ != "apiKey":
            return
        match self.in_:
            case None:
                raise ValueError("in is required for apiKey type")
            case "user" | "password":
                return
            case _:
                raise ValueError("in must be 'user' or 'password' for apiKey type")
'''),
    ("models/security.py", '''        if self.type_ == "httpApiKey":
            if self.name is None:
                raise ValueError("name is required for httpApiKey type")
            if self.in_ is None:
                raise ValueError("in is required for httpApiKey type")
            if self.in_ not in ("query", "header", "cookie"):
''', '''        if self.type_ == "httpApiKey":
            for value, label in ((self.name, "name"), (self.in_, "in")):
                if is_null(value):
                    raise ValueError(f"{label} is required for httpApiKey type")
            if self.in_ not in {"query", "header", "cookie"}:
'''),
    ("models/security.py", '''        if self.bearer_format is not None and (
            self.type_ != "http" or self.scheme != "bearer"
        ):
            raise''', '''        bearer = self.type_ == "http" and self.scheme == "bearer"
        if not bearer and self.bearer_format is not None:
            raise'''),
    ("models/security.py", '''        if self.scopes is not None and self.type_ not in ("oauth2", "openIdConnect"):
            raise''', '''        if self.scopes is None:
            return
        scoped = any(self.type_ == kind for kind in ("oauth2", "openIdConnect"))
        if not scoped:
            raise'''),
    ("models/message.py", '''        if self.headers is None and self.payload is None:
            raise''', '''        if all(is_null(part) for part in (self.headers, self.payload)):
            raise'''),
    ("models/channel.py", '''        if self.parameters is None:
            return self

        if self.address is None:
            raise''', '''        if is_null(self.parameters):
            return self

        if is_null(self.address):
            raise'''),
    ("models/channel.py", '''        expression_pattern = re.compile(r"\\{[^}]+\\}")
        if not expression_pattern.search(self.address):
            raise''', '''        has_expression = any(re.finditer(r"\\{[^}]+\\}", self.address))
        if not has_expression:
            raise'''),
    ("models/bindings/amqp.py", '''        if self.is_ == "routingKey":
            if self.exchange is None:
                raise ValueError("exchange must be provided when is='routingKey'")
            if self.queue is not None:
                raise ValueError("queue must not be provided when is='routingKey'")
        elif self.is_ == "queue":
            if self.queue is None:
                raise ValueError("queue must be provided when is='queue'")
            if self.exchange is not None:
                raise ValueError("exchange must not be provided when is='queue'")
        return self
''', '''        pairs = {"routingKey": ("exchange", "queue"), "queue": ("queue", "exchange")}
        if self.is_ in pairs:
            needed, other = pairs[self.is_]
            if getattr(self, needed) is None:
                raise ValueError(f"{needed} must be provided when is='{self.is_}'")
            if getattr(self, other) is not None:
                raise ValueError(f"{other} must not be provided when is='{self.is_}'")
        return self
'''),
    ("models/bindings/ibmmq.py", '''        if heart_beat_interval is not None and (
            heart_beat_interval < 0 or heart_beat_interval > 999999
        ):
            raise''', '''        if heart_beat_interval is not None and not 0 <= heart_beat_interval < 1_000_000:
            raise'''),
    ("models/bindings/ibmmq.py", '''        if max_msg_length is not None and (
            max_msg_length < 0 or max_msg_length > 104857600
        ):
            raise''', '''        if max_msg_length is None:
            return None
        if max_msg_length not in range(100 * 1024 * 1024 + 1):
            raise'''),
    ("models/bindings/solace.py", '''        if isinstance(priority, int) and (priority < 0 or priority > 255):
            raise''', '''        low, high = 0, 255
        if isinstance(priority, int) and not (low <= priority <= high):
            raise'''),
    ("models/bindings/solace.py", '''        if self.destination_type == "queue":
            if self.queue is None:
                raise ValueError("queue required for destinationType 'queue'")
            if self.topic is not None:
                raise ValueError("topic not allowed for destinationType 'queue'")
        elif self.destination_type == "topic":
            if self.topic is None:
                raise ValueError("topic required for destinationType 'topic'")
            if self.queue is not None:
                raise ValueError("queue not allowed for destinationType 'topic'")
        return self
''', '''        match (self.destination_type, self.queue, self.topic):
            case ("queue", None, _):
                raise ValueError("queue required for destinationType 'queue'")
            case ("queue", _, topic) if topic is not None:
                raise ValueError("topic not allowed for destinationType 'queue'")
            case ("topic", _, None):
                raise ValueError("topic required for destinationType 'topic'")
            case ("topic", queue, _) if queue is not None:
                raise ValueError("queue not allowed for destinationType 'topic'")
        return self
'''),
]
B["resolver"] = [
    ("validators/utils.py", '''    for part in path_parts:
        if not part:
            continue
        full_path += f".{part}"
        current_obj, resolved_type = _resolve_path_part(
            current_obj=current_obj,
            part=part,
            full_path=full_path,
        )

    return current_obj, resolved_type, full_path
''', '''    steps = ["spec"]
    for part in filter(None, path_parts):
        steps.append(part)
        full_path = ".".join(steps)
        current_obj, resolved_type = _resolve_path_part(
            current_obj=current_obj, part=part, full_path=full_path
        )

    return current_obj, resolved_type, full_path
'''),
    ("validators/utils.py", '''    if _has_root_mapping(obj=current_obj):
        return _resolve_from_root(
            current_obj=current_obj,
            part=part,
            full_path=full_path,
        )
    if isinstance(current_obj, BaseModel):
        return _resolve_from_model(
            current_obj=current_obj,
            part=part,
            full_path=full_path,
        )
    if isinstance(current_obj, dict):
        return _resolve_from_dict(
            current_obj=current_obj,
            part=part,
            full_path=full_path,
        )
    raise''', '''    handlers = (
        (_has_root_mapping, _resolve_from_root),
        (lambda obj: isinstance(obj, BaseModel), _resolve_from_model),
        (lambda obj: isinstance(obj, dict), _resolve_from_dict),
    )
    for applies, resolve in handlers:
        if applies(current_obj):
            return resolve(current_obj, part, full_path)
    raise'''),
    ("validators/utils.py", '''    if part not in current_obj.root:
        raise ValueError(f"Reference key '{part}' not found in {full_path}")
    next_obj = current_obj.root[part]
    return next_obj, type(next_obj)
''', '''    return _resolve_from_dict(current_obj.root, part, full_path)
'''),
    ("validators/utils.py", '''    if part not in current_obj:
        raise ValueError(f"Reference key '{part}' not found in {full_path}")
    next_obj = current_obj[part]
    return next_obj, type(next_obj)
''', '''    try:
        next_obj = current_obj[part]
    except KeyError:
        raise ValueError(f"Reference key '{part}' not found in {full_path}") from None
    return next_obj, type(next_obj)
''', 1),
    ("validators/utils.py", '''    for name, field_info in current_obj.__class__.model_fields.items():
        if name == part:
            return name
        if hasattr(field_info, "alias") and field_info.alias == part:
            return name
    return None
''', '''    fields = type(current_obj).model_fields
    return next(
        (name for name, info in fields.items() if part in (name, info.alias)), None
    )
'''),
    ("validators/utils.py", '''    path_parts = ref[1:].strip("/").split("/")
    if not path_parts or path_parts == [""]:
        raise ValueError(f"Invalid reference path: {ref}")
    return path_parts
''', '''    pointer = ref.removeprefix("#").strip("/")
    if not pointer:
        raise ValueError(f"Invalid reference path: {ref}")
    return pointer.split("/")
'''),
    ("validators/utils.py", '''    return ref.startswith(("http://", "https://"))
''', '''    return ref[:7] == "http://" or ref[:8] == "https://"
'''),
    ("validators/utils.py", '''    if visited_refs is None:
        visited_refs = set()
    if ref in visited_refs:
        raise ValueError(f"Circular reference detected: {ref}")
    visited_refs.add(ref)
    return visited_refs
''', '''    visited_refs = set() if visited_refs is None else visited_refs
    known = len(visited_refs)
    visited_refs.add(ref)
    if len(visited_refs) == known:
        raise ValueError(f"Circular reference detected: {ref}")
    return visited_refs
'''),
]
B["unified"] = [
    ("validators/unified_references_validator.py", '''        for pattern, expected_type in REFERENCE_TYPE_MAPPINGS.items():
            if not self._path_matches(pattern=pattern, path=normalized_path):
                continue
            score = self._pattern_specificity(pattern=pattern)
            if best_score is None or score > best_score:
                best_match = expected_type
                best_score = score

        if best_match is not None:
            return best_match
''', '''        matches = [
            (self._pattern_specificity(pattern=pattern), expected_type)
            for pattern, expected_type in REFERENCE_TYPE_MAPPINGS.items()
            if self._path_matches(pattern=pattern, path=normalized_path)
        ]
        if matches:
            return max(matches, key=lambda match: match[0])[1]
'''),
    ("validators/unified_references_validator.py", '''        best_match = None
        best_score = None
''', ''),
    ("validators/unified_references_validator.py", '''        literal_segments = 0
        wildcard_segments = 0
        double_wildcards = 0
        pattern_parts = self._split_path(path=pattern)
        for part in pattern_parts:
            if part == "**":
                double_wildcards += 1
                wildcard_segments += 1
                continue
            if "*" in part:
                wildcard_segments += 1
                continue
            literal_segments += 1
        segment_count = len(pattern_parts)
''', '''        pattern_parts = self._split_path(path=pattern)
        segment_count = len(pattern_parts)
        double_wildcards = pattern_parts.count("**")
        wildcard_segments = sum("*" in part for part in pattern_parts)
        literal_segments = segment_count - wildcard_segments
'''),
    ("validators/unified_references_validator.py", '''        if pattern_index == len(pattern_parts):
            return path_index == len(path_parts)

        pattern_part = pattern_parts[pattern_index]
        if pattern_part == "**":
            if pattern_index == len(pattern_parts) - 1:
                return True
            return any(
                self._path_matches_recursive(
                    pattern_parts=pattern_parts,
                    path_parts=path_parts,
                    pattern_index=pattern_index + 1,
                    path_index=next_index,
                )
                for next_index in range(path_index, len(path_parts) + 1)
            )

        if path_index >= len(path_parts):
            return False

        path_part = path_parts[path_index]
        if not self._segment_matches(
            pattern_part=pattern_part,
            path_part=path_part,
        ):
            return False

        return self._path_matches_recursive(
            pattern_parts=pattern_parts,
            path_parts=path_parts,
            pattern_index=pattern_index + 1,
            path_index=path_index + 1,
        )
''', '''        # reachable[i]: the patterns consumed so far can end before path_parts[i]
        count = len(path_parts)
        reachable = [i == path_index for i in range(count + 1)]
        for part in pattern_parts[pattern_index:]:
            following = [False] * (count + 1)
            for i, possible in enumerate(reachable):
                if not possible:
                    continue
                if part == "**":
                    for j in range(i, count + 1):
                        following[j] = True
                elif i < count and self._segment_matches(part, path_parts[i]):
                    following[i + 1] = True
            reachable = following
        return reachable[count]
'''),
    ("validators/unified_references_validator.py", '''        if isinstance(obj, list):
            for i, item in enumerate(obj):
                yield item, f"{path}[{i}]"

        elif isinstance(obj, Mapping):
            for key, value in obj.items():
                yield value, f"{path}.{self._escape_path_segment(str(key))}"

        elif isinstance(obj, BaseModel):
            for field_name, field_info in obj.__class__.model_fields.items():
                field_value = getattr(obj, field_name)

                if field_value is None or field_info.exclude:
                    continue

                yield field_value, f"{path}.{field_name}"
''', '''        match obj:
            case list():
                yield from self._iter_items(obj, path)
            case Mapping():
                yield from (
                    (value, f"{path}.{self._escape_path_segment(str(key))}")
                    for key, value in obj.items()
                )
            case BaseModel():
                yield from self._iter_fields(obj, path)

    @staticmethod
    def _iter_items(obj: list, path: str) -> Iterator[tuple[Any, str]]:
        """Yield list items."""
        for i in range(len(obj)):
            yield obj[i], path + "[" + str(i) + "]"

    @staticmethod
    def _iter_fields(obj: BaseModel, path: str) -> Iterator[tuple[Any, str]]:
        """Yield model fields."""
        names = (n for n, info in type(obj).model_fields.items() if not info.exclude)
        for field_name in names:
            field_value = getattr(obj, field_name)
            if field_value is not None:
                yield field_value, ".".join((path, field_name))
'''),
    ("validators/unified_references_validator.py", '''        if isinstance(expected_type, type):
            return actual_type == expected_type or issubclass(
                actual_type, expected_type
            )

        return actual_type == expected_type
''', '''        if not isinstance(expected_type, type):
            return actual_type == expected_type
        return issubclass(actual_type, expected_type)
'''),
    ("validators/unified_references_validator.py", '''        if ref_str not in validated_refs:
            validated_refs.add(ref_str)
''', '''        validated_refs |= {ref_str}
'''),
    ("validators/unified_references_validator.py", '''        normalized_path = ref_path.replace(".root.", ".")
        if normalized_path.endswith(".root"):
            normalized_path = normalized_path[: -len(".root")]
        return re.sub(r"\\[\\d+\\]", "", normalized_path)
''', '''        normalized_path = ref_path.replace(".root.", ".").removesuffix(".root")
        return _INDEX.sub("", normalized_path)
'''),
    ("validators/unified_references_validator.py", '''logger = logging.getLogger(__name__)
''', '''logger = logging.getLogger(__name__)

_INDEX = re.compile(r"\\[[0-9]+\\]")
'''),
]
T = "validators/tags_ref_validator.py"
B["tags"] = [
    (T, '''        for tag in tags:
            if not isinstance(tag, Reference):
                continue
            self.validate_tag_ref(spec, tag, context)
''', '''        refs = [tag for tag in tags if isinstance(tag, Reference)]
        while refs:
            self.validate_tag_ref(spec, refs.pop(0), context)
'''),
    (T, '''        self.validate_info_tags_refs(spec)
        self.validate_servers_tags_refs(spec)
        self.validate_channels_tags_refs(spec)
        self.validate_channels_messages_tags_refs(spec)
        self.validate_operations_tags_refs(spec)
        self.validate_components_messages_tags_refs(spec)
        self.validate_components_channels_tags_refs(spec)
        self.validate_components_operations_tags_refs(spec)
        self.validate_components_servers_tags_refs(spec)
        self.validate_components_operation_traits_tags_refs(spec)
        self.validate_components_message_traits_tags_refs(spec)
        self.validate_components_channels_messages_tags_refs(spec)
        self.validate_components_tags_refs(spec)
''', '''        places = (
            "info",
            "servers",
            "channels",
            "channels_messages",
            "operations",
            "components_messages",
            "components_channels",
            "components_operations",
            "components_servers",
            "components_operation_traits",
            "components_message_traits",
            "components_channels_messages",
            "components",
        )
        for place in places:
            getattr(self, f"validate_{place}_tags_refs")(spec)
'''),
    (T, '''        if not hasattr(obj, "tags") or not obj.tags:
            return
        self._validate_tags_list(spec, obj.tags, context)
''', '''        if tags := getattr(obj, "tags", None):
            self._validate_tags_list(spec, tags, context)
'''),
    (T, '''        for channel_name, channel in spec.channels.root.items():
            if isinstance(channel, Reference) or not channel.messages:
                continue
            self._validate_tags_in_collection(
                spec,
                channel.messages.root,
                f"message '{{name}}' in channel '{channel_name}'",
            )
''', '''        for channel_name in spec.channels:
            channel = spec.channels[channel_name]
            messages = getattr(channel, "messages", None)
            if messages:
                self._validate_tags_in_collection(
                    spec,
                    {name: messages[name] for name in messages},
                    f"message '{{name}}' in channel '{channel_name}'",
                )
'''),
    ("validators/external_docs_ref_validator.py", '''        if not hasattr(obj, "external_docs") or not obj.external_docs:
            return

        external_docs = obj.external_docs
        if isinstance(external_docs, Reference):
            self.validate_external_doc_ref(spec, external_docs, context)
''', '''        match getattr(obj, "external_docs", None):
            case Reference() as ref:
                self.validate_external_doc_ref(spec=spec, ref=ref, context=context)
'''),
    ("validators/external_docs_ref_validator.py", '''        if ref_value.startswith("#"):
            self.validate_internal_external_doc_ref(spec, ref, context)
            return

        self.validate_external_external_doc_ref(spec, ref, context)
''', '''        internal = ref_value[:1] == "#"
        hook = (
            self.validate_internal_external_doc_ref
            if internal
            else self.validate_external_external_doc_ref
        )
        hook(spec, ref, context)
'''),
    ("validators/external_docs_ref_validator.py", '''        if not ref_value.startswith("#/components/externalDocs/"):
            raise''', '''        head, prefix, doc_key = ref_value.partition("#/components/externalDocs/")
        if head or not prefix:
            raise'''),
    ("validators/external_docs_ref_validator.py", '''        doc_key = ref_value.removeprefix("#/components/externalDocs/")
        if (
            not spec.components
            or not spec.components.external_docs
            or doc_key not in spec.components.external_docs.root
        ):
            raise''', '''        components = spec.components
        known = components.external_docs if components else None
        if not known or doc_key not in known:
            raise'''),
]
B["reference"] = [
    ("models/base.py", '''        return cls(ref=f"#/servers/{server_name}")
''', '''        return cls._to("servers", server_name)
'''),
    ("models/base.py", '''        return cls(ref=f"#/channels/{channel_name}")
''', '''        return cls._to("channels", channel_name)
'''),
    ("models/base.py", '''        return cls(ref=f"#/components/schemas/{schema_name}")
''', '''        return cls._to("components", "schemas", schema_name)
'''),
    ("models/base.py", '''    @classmethod
    def to_root_server_name(''', '''    @classmethod
    def _to(cls, *parts: str) -> "Reference":
        """Build a local reference."""
        return cls.model_validate({"$ref": "/".join(("#", *parts))})

    @classmethod
    def to_root_server_name('''),
    ("models/base.py", '''        return self.ref.__hash__()
''', '''        return hash(self.ref)
'''),
]
