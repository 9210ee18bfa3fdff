"""Contract of pydantic 1.8 models: coercion, validators, copies, dict and json."""
import typing
import inspect
from fractions import Fraction
import z3
from . import reg
from ..core import eng, Unsupported, model_exc
from .. import num as N
from ..num import SNum, SBool, SStr, num
from .. import values as V
from ..values import PList, PDict, PSet, PObject, MISSING
from .. import runtime as R
from .. import arrays as A
from .misc import JsonText, json_loads, map_list, map_dict


class ValidationError(ValueError):
    pass


class FieldInfo:
    def __init__(self, default=MISSING, default_factory=None, **k):
        self.default, self.default_factory, self.kw = default, default_factory, k


def Field(default=..., *, default_factory=None, **k):
    return FieldInfo(MISSING if default is ... else default, default_factory, **k)


class _Val:
    def __init__(self, fn, fields, pre, always, each_item):
        self.fn, self.fields, self.pre, self.always, self.each_item = fn, fields, pre, always, each_item

    def __get__(self, o, cls):
        return lambda *a, **k: self.fn(cls, *a, **k)


def validator(*fields, pre=False, each_item=False, always=False, check_fields=True, whole=None, allow_reuse=False):
    def deco(f):
        if isinstance(f, classmethod):
            f = f.__func__
        return _Val(f, fields, pre, always, each_item)
    return deco


def root_validator(*a, **k):
    raise Unsupported("root_validator")


class Constrained:
    def __init__(self, base, **c):
        self.base, self.c = base, c


def conint(*, strict=False, gt=None, ge=None, lt=None, le=None, multiple_of=None):
    return Constrained(int, gt=gt, ge=ge, lt=lt, le=le)


def confloat(*, strict=False, gt=None, ge=None, lt=None, le=None, multiple_of=None):
    return Constrained(float, gt=gt, ge=ge, lt=lt, le=le)


def constr(*, max_length=None, min_length=None, regex=None, strip_whitespace=False, **k):
    return Constrained(str, max_length=max_length, min_length=min_length, regex=regex)


Constrained.__call__ = lambda self: None     # usable in typing constructs
PositiveInt = Constrained(int, gt=0)
PositiveFloat = Constrained(float, gt=0)
NonNegativeInt = Constrained(int, ge=0)
NonNegativeFloat = Constrained(float, ge=0)


class ModelField:
    def __init__(self, name, typ, default, factory, config):
        self.name, self.typ, self.default, self.factory, self.config = name, typ, default, factory, config
        self.required = default is MISSING and factory is None
        self.optional = False
        if typing.get_origin(typ) is typing.Union and type(None) in typing.get_args(typ):
            self.optional = True
            if self.required:
                self.required, self.default = False, None
        if default is None:
            self.optional = True
        if typ is typing.Any:
            self.optional = True
            if self.required:
                self.required, self.default = False, None
        self.pre, self.post, self.each, self.eachpre, self.always = [], [], [], [], False

    @property
    def outer_type_(self):
        return self.typ

    def get_default(self):
        if self.factory is not None:
            return self.factory()
        return deepcopy(self.default)

    def validate(self, v, values, cls):
        for f in self.pre:
            v = f(cls, v, values, self)
        if v is None:
            if not self.optional:
                raise ValueError("none is not an allowed value")
        else:
            v = coerce(v, self.typ, self, cls, values)
        for f in self.post:
            v = f(cls, v, values, self)
        return v


def wrap(fn):
    fn = fn.fn if isinstance(fn, _Val) else fn
    try:
        ps = list(inspect.signature(fn).parameters.values())[2:]
    except (TypeError, ValueError):
        ps = []
    names = [p.name for p in ps]
    haskw = any(p.kind == p.VAR_KEYWORD for p in ps)

    def call(cls, v, values, field):
        kw = {}
        if "values" in names or haskw:
            kw["values"] = PDict(values)
        if "field" in names or haskw:
            kw["field"] = field
        if "config" in names or haskw:
            kw["config"] = field.config
        return fn(cls, v, **kw)
    return call


def deepcopy(v):
    if isinstance(v, PList):
        return map_list(v, deepcopy)
    if isinstance(v, PDict):
        return map_dict(v, deepcopy)
    if isinstance(v, PSet):
        return PSet(v)
    if isinstance(v, tuple):
        return tuple(deepcopy(x) for x in v)
    if isinstance(v, A.NDArray):
        return v.copy()
    if isinstance(v, BaseModel):
        return v.copy(deep=True)
    if isinstance(v, PObject):
        r = object.__new__(type(v))
        r._born()
        for a, b in V.public_dict(v).items():
            r.__dict__[a] = deepcopy(b)
        return r
    return v


def fits(v, t):
    return None


def coerce(v, t, field, cls, values, each=True):
    """value of type t, or ValueError/TypeError."""
    if t is typing.Any or t is object or t is R.PObject:
        return v
    if isinstance(t, str) or isinstance(t, typing.ForwardRef):
        raise Unsupported("forward reference field")
    if isinstance(t, typing.TypeVar):
        return v
    o = typing.get_origin(t)
    if o is typing.Union:
        args = [a for a in typing.get_args(t) if a is not type(None)]
        if v is None and type(None) in typing.get_args(t):
            return None
        if len(args) == 1:
            return coerce(v, args[0], field, cls, values)
        err = None
        for a in args:
            try:
                return coerce(v, a, field, cls, values)
            except (ValueError, TypeError, AssertionError) as e:
                if not R.sanctioned(e):
                    raise Unsupported("internal: " + R.describe_exc(e))
                err = e
        raise model_exc(ValidationError("no union member matches"))
    if o in (list, typing.List):
        a, = typing.get_args(t) or (typing.Any,)
        if isinstance(v, (PList, tuple, PSet)):
            l = R.to_seq(v)
        elif isinstance(v, A.NDArray) or isinstance(v, (str, SStr, PDict)) or V.is_scalar(v):
            raise model_exc(TypeError("value is not a valid list"))
        else:
            raise model_exc(TypeError("value is not a valid list"))
        item = item_coercer(a, field, cls, values)
        if a is typing.Any:
            return PList(l)
        cc = l.concrete()
        if cc is not None:
            return PList([item(x) for x in cc])
        l = PList(l)
        return V.gen_map(l.n, lambda i: item(l.get(i)))
    if o in (dict, typing.Dict):
        if not isinstance(v, PDict):
            raise model_exc(TypeError("value is not a valid dict"))
        ka, va = typing.get_args(t)
        item = item_coercer(va, field, cls, values)
        kitem = item_coercer(ka, field, cls, values)
        cc = v.concrete()
        if cc is not None:
            return PDict([(kitem(k), item(x)) for k, x in cc])
        r = PDict()
        ls = []
        for l in v.layers:
            if l[0] == "i":
                ls.append(("i", kitem(l[1]), item(l[2])))
            else:
                fam = l[1]
                ls.append(("f", coerce_family(fam, kitem, item, ka, va)))
        r.layers = tuple(ls)
        return r
    if o in (tuple, typing.Tuple):
        args = typing.get_args(t)
        if not isinstance(v, (PList, tuple)):
            raise model_exc(TypeError("value is not a valid tuple"))
        cc = R.to_seq(v).concrete()
        if cc is None:
            raise Unsupported("tuple of symbolic length")
        if len(args) == 2 and args[1] is Ellipsis:
            return tuple(coerce(x, args[0], field, cls, values) for x in cc)
        if not args:
            return tuple(cc)
        if len(cc) != len(args):
            raise model_exc(ValueError("wrong tuple length"))
        return tuple(coerce(x, a, field, cls, values) for x, a in zip(cc, args))
    if o is typing.get_origin(typing.Callable[[int], int]) or t is typing.Callable:
        if not callable(v):
            raise model_exc(TypeError("not callable"))
        return v
    if o in (type, typing.Type):
        return v
    if o is not None:
        raise Unsupported(f"field type {t}")
    if isinstance(t, Constrained):
        v = coerce(v, t.base, field, cls, values)
        c = t.c
        if t.base is str:
            return v
        for k, f in (("gt", lambda a, b: a > b), ("ge", lambda a, b: a >= b), ("lt", lambda a, b: a < b), ("le", lambda a, b: a <= b)):
            if c.get(k) is not None and not V.decide(f(v, c[k])):
                raise model_exc(ValueError(f"ensure this value is {k} {c[k]}"))
        return v
    gv = getattr(t, "__get_validators__", None)
    if gv is not None and not (isinstance(t, type) and issubclass(t, BaseModel) and getattr(gv, "__func__", None) is BaseModel.__get_validators__.__func__):
        for f in gv():
            v = f(v)
        return v
    if isinstance(t, type) and issubclass(t, BaseModel):
        return t.validate(v)
    if t == bool:
        if isinstance(v, (bool, SBool)):
            return v
        if isinstance(v, int) and v in (0, 1):
            return bool(v)
        if isinstance(v, str) and v.lower() in ("true", "false", "on", "off", "yes", "no", "1", "0", "t", "f", "y", "n"):
            return v.lower() in ("true", "on", "yes", "1", "t", "y")
        raise model_exc(TypeError("value could not be parsed to a boolean"))
    if t == int:
        if isinstance(v, (PList, PDict, tuple)) or isinstance(v, A.NDArray) and v.ndim:
            raise model_exc(TypeError("value is not a valid integer"))
        return R.PInt(v)
    if t == float:
        if isinstance(v, (PList, PDict, tuple)) or isinstance(v, A.NDArray) and v.ndim:
            raise model_exc(TypeError("value is not a valid float"))
        if isinstance(v, SNum) and v.kind == "real":
            return v
        return R.pfloat_of(v)
    if t == str:
        if isinstance(v, (str, SStr)):
            return v
        if isinstance(v, (int, SNum, Fraction)) and not isinstance(v, bool):
            return R.pstr(v)
        raise model_exc(TypeError("str type expected"))
    if t == dict:
        if not isinstance(v, PDict):
            raise model_exc(TypeError("value is not a valid dict"))
        return PDict(v)
    if t == list:
        if not isinstance(v, (PList, tuple)):
            raise model_exc(TypeError("value is not a valid list"))
        return PList(R.to_seq(v))
    if t == tuple:
        return tuple(R.to_seq(v).concrete())
    from . import times
    if t is times.datetime:
        if isinstance(v, times.Instant):
            if not isinstance(v, times.datetime):
                raise model_exc(TypeError("invalid datetime"))
            return v
        if isinstance(v, SStr):
            return times.datetime.of(times.iso_time(v)) if z3.is_app(v.z) and v.z.decl().name() == "iso" else times.datetime.of(times.parsed(v))
        if isinstance(v, str):
            return times.datetime.of(times.parse_const(v))
        raise model_exc(TypeError("invalid datetime"))
    from . import fs
    if t is fs.Path:
        if isinstance(v, fs.Path):
            return v
        if isinstance(v, (str, SStr)):
            return fs.Path(v)
        raise model_exc(TypeError("value is not a valid path"))
    if isinstance(t, type):
        if R.pisinstance(v, t):
            return v
        raise model_exc(TypeError(f"instance of {t.__name__} expected"))
    raise Unsupported(f"field type {t!r}")


def item_coercer(a, field, cls, values):
    def f(x):
        if x is None:
            if a is typing.Any or typing.get_origin(a) is typing.Union and type(None) in typing.get_args(a):
                return None
            raise model_exc(TypeError("none is not an allowed value"))
        return coerce(x, a, field, cls, values)
    return f


def coerce_family(fam, kitem, item, ka, va):
    """typed copy of a symbolic family (every entry validates, or ValidationError)."""
    if va is typing.Any and ka in (typing.Any, str, R.PStr):
        return fam
    pf = V.generic(fam.n, lambda i: (kitem(fam.keyfn(i)), item(fam.valfn(i))), True)
    bad = [p for p in pf.paths if p.kind == "exc"]
    good = [p for p in pf.paths if p.kind == "ret"]
    if bad:
        V.exits(fam.n, pf, good, lambda m: item(fam.valfn(m)))
    g = V.PathFn(pf.k, good, fam.n)
    same = V.key_eq(kitem(fam.keyfn(SNum.atom(z3.Int("probe!ck"), "int"))), fam.keyfn(SNum.atom(z3.Int("probe!ck"), "int")))
    val = lambda i: g.at(i, lambda p: p.value[1])
    return fam.revalued(val) if same is True else V.Family(fam.n, lambda i: g.at(i, lambda p: p.value[0]), val)


class ModelMeta(type):
    def __new__(mcs, name, bases, ns, **kw):
        cls = super().__new__(mcs, name, bases, ns, **kw)
        fields, vals = {}, {}
        config = ConfigBase
        for b in reversed(cls.__mro__[1:]):
            if "__own_fields__" in b.__dict__:
                for k, f in b.__own_fields__.items():
                    fields[k] = f
                for k, f in b.__own_vals__.items():
                    vals[k] = f
        configs = [c.__dict__["Config"] for c in cls.__mro__ if "Config" in c.__dict__]
        cls.__config__ = type("Config", tuple(dict.fromkeys(c for c in configs if isinstance(c, type))) + ((ConfigBase,) if ConfigBase not in configs else ()), {})
        enc = {}
        for c in reversed(configs):
            je = c.__dict__.get("json_encoders")
            if je is not None:
                enc.update(je if isinstance(je, dict) else dict(enc_items(je)))
        cls.__encoders__ = enc
        own = {}
        for k, t in ns.get("__annotations__", {}).items():
            if k.startswith("_") or typing.get_origin(t) is typing.ClassVar:
                continue
            d = ns.get(k, MISSING)
            own[k] = (t, d)
        for k, d in ns.items():
            if k in fields and k not in own and not k.startswith("_") and not isinstance(d, (_Val, classmethod, staticmethod, property)) and not inspect.isfunction(d):
                own[k] = (fields[k][0], d)
        cls.__own_fields__ = own
        cls.__own_vals__ = {k: v for k, v in ns.items() if isinstance(v, _Val)}
        fields.update(own)
        vals.update(cls.__own_vals__)
        cls.__fields__ = {}
        for k, (t, d) in fields.items():
            fac = None
            if isinstance(d, FieldInfo):
                fac, d = d.default_factory, d.default
            f = ModelField(k, t, d, fac, cls.__config__)
            for v in vals.values():
                if k in v.fields or "*" in v.fields:
                    if v.each_item:
                        raise Unsupported("each_item validator")
                    (f.pre if v.pre else f.post).append(wrap(v))
                    f.always = f.always or v.always
            cls.__fields__[k] = f
            if k in cls.__dict__:
                try:
                    type.__delattr__(cls, k)
                except AttributeError:
                    pass
        return cls


def enc_items(d):
    return d.concrete()


class ConfigBase:
    validate_assignment = False
    extra = "ignore"
    arbitrary_types_allowed = False
    copy_on_model_validation = True
    json_encoders = {}


class BaseModel(PObject, metaclass=ModelMeta):
    def __init__(self, **data):
        cls = type(self)
        if "__pv_symkw__" in data:
            data = SymData(data["__pv_symkw__"])
        vals = {}
        failed = None
        fields = cls.__fields__
        out = {}
        bad = []
        for k, f in fields.items():
            v = data.get(k, MISSING) if isinstance(data, dict) else data.get(k)
            if v is MISSING:
                if f.required:
                    bad.append(k)
                    continue
                v = f.get_default()
                if not f.always:
                    out[k] = v
                    continue
            try:
                out[k] = f.validate(v, out, cls)
            except (ValueError, TypeError, AssertionError) as e:
                if not R.sanctioned(e):
                    raise Unsupported("internal: " + R.describe_exc(e))
                bad.append(k)
                failed = e
        if bad:
            raise model_exc(ValidationError(f"{cls.__name__}: validation of {bad}: {failed}"))
        self._touch()
        self.__dict__.update(out)

    def __setattr__(self, k, v):
        cls = type(self)
        if k.startswith("_"):
            return PObject.__setattr__(self, k, v)
        if k not in cls.__fields__ and cls.__config__.extra != "allow":
            raise model_exc(ValueError(f'"{cls.__name__}" object has no field "{k}"'))
        if cls.__config__.validate_assignment:
            others = {a: b for a, b in self.field_dict().items() if a != k}
            try:
                v = cls.__fields__[k].validate(v, others, cls)
            except (ValueError, TypeError, AssertionError) as e:
                if not R.sanctioned(e):
                    raise Unsupported("internal: " + R.describe_exc(e))
                raise model_exc(ValidationError(str(e)))
        PObject.__setattr__(self, k, v)

    def field_dict(self):
        return {k: self.__dict__[k] for k in type(self).__fields__ if k in self.__dict__}

    @classmethod
    def __get_validators__(cls):
        yield cls.validate

    @classmethod
    def validate(cls, value):
        if isinstance(value, cls):
            return value.copy() if cls.__config__.copy_on_model_validation else value
        if isinstance(value, PDict):
            cc = value.concrete()
            if cc is None:
                return cls(**R.SymKw(value))
            return cls(**{k: v for k, v in cc})
        raise model_exc(TypeError("value is not a valid dict"))

    def copy(self, *, include=None, exclude=None, update=None, deep=False):
        if include is not None or exclude is not None:
            raise Unsupported("copy(include/exclude)")
        r = object.__new__(type(self))
        r._born()
        for k, v in V.public_dict(self).items():
            r.__dict__[k] = deepcopy(v) if deep else v
        if update is not None:
            for k, v in (update.concrete() if isinstance(update, PDict) else update.items()):
                r.__dict__[k] = deepcopy(v) if deep else v
        return r

    def dict(self, *, include=None, exclude=None, by_alias=False, exclude_unset=False, exclude_defaults=False, exclude_none=False):
        if include is not None or exclude_unset or exclude_defaults or exclude_none:
            raise Unsupported("dict(options)")
        ex = set()
        if exclude is not None:
            ex = set(R.to_seq(exclude).concrete())
        return PDict([(k, plain(v)) for k, v in self.field_dict().items() if k not in ex])

    def json(self, **k):
        if {a for a in k if k[a] is not None} - {"indent"}:
            raise Unsupported("json(options)")
        return JsonText(encode(self.dict(), type(self).__encoders__))

    @classmethod
    def parse_obj(cls, o):
        return cls.validate(o) if not isinstance(o, PDict) else BaseModel.validate.__func__(cls, o)

    @classmethod
    def parse_raw(cls, s, **k):
        return cls.parse_obj(json_loads(s))

    @classmethod
    def parse_file(cls, path, **k):
        from . import fs
        return cls.parse_raw(fs.Path(path).read_text())

    @classmethod
    def construct(cls, *a, **k):
        raise Unsupported("construct")

    def __eq__(self, o):
        if isinstance(o, BaseModel):
            return self.dict() == o.dict()
        return False

    def __ne__(self, o):
        return not (self == o)
    __hash__ = None

    def __iter__(self):
        return iter(self.field_dict().items())


class SymData:
    def __init__(self, d):
        self.d = d

    def get(self, k):
        return self.d.lookup(k)


def plain(v):
    if isinstance(v, BaseModel):
        return v.dict()
    if isinstance(v, PList):
        return map_list(v, plain)
    if isinstance(v, PDict):
        return map_dict(v, plain)
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    return v


def encode(v, enc):
    if isinstance(v, PDict):
        return map_dict(v, lambda x: encode(x, enc), json_key)
    if isinstance(v, (PList,)):
        return map_list(v, lambda x: encode(x, enc))
    if isinstance(v, tuple):
        return PList([encode(x, enc) for x in v])
    if v is None or V.is_scalar(v) and not isinstance(v, SComplex_):
        return v
    if isinstance(v, V.Opaque):
        return v
    for b in type(v).__mro__[:-1]:
        f = enc.get(b)
        if f is not None:
            return f(v)
    from . import times, fs
    if isinstance(v, times.Instant) and not isinstance(v, times.attodatetime):
        return v.isoformat()
    if isinstance(v, fs.Path):
        return v.pv_str()
    if inspect.isfunction(v):
        for b, f in enc.items():
            if isinstance(v, b):
                return f(v)
    if isinstance(v, BaseModel):
        return encode(v.dict(), enc)
    raise model_exc(TypeError(f"Object of type '{type(v).__name__}' is not JSON serializable"))


from ..num import SComplex as SComplex_


def json_key(k):
    """json turns keys into text."""
    if isinstance(k, (str, SStr)):
        return k
    return R.pstr(k)


reg("pydantic", BaseModel=BaseModel, Field=Field, validator=validator, root_validator=root_validator, conint=conint, confloat=confloat,
    constr=constr, PositiveInt=PositiveInt, PositiveFloat=PositiveFloat, NonNegativeInt=NonNegativeInt, NonNegativeFloat=NonNegativeFloat,
    ValidationError=ValidationError)
