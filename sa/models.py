"""The names the interpreter asks its models for."""
from .m_core import (  # noqa: F401
    binop, const_strings, contains, delitem, dict_set, eq, ext_truth, getitem,
    has_method, is_exception_class, is_subclass, merge_dict, obj_truth, order,
    repr_of, setitem, str_of,
)
from .m_methods import call_meth  # noqa: F401
from .m_builtins import builtin, dataclass_init, decorate  # noqa: F401
from .m_lib import enter_with  # noqa: F401
from .m_ext import (  # noqa: F401
    call_ext, call_object, ext_attr, ext_instance_attr, ext_obj_attr,
    ext_super, iter_ext, iter_object, sym_attr,
)
