"""Compatibility with Python 3.11+ for popsynth, which is written for 3.7-3.9.

popsynth/utils/configuration.py gives dataclass fields instances of other
(unhashable) dataclasses as defaults. Up to Python 3.10 the standard library
refused only list, dict and set defaults; from 3.11 on it refuses everything
unhashable, so the package cannot be imported. This gives classes defined in
popsynth.* the rule of 3.10 back. Nothing else is changed.

Loaded through PYTHONPATH by /opt/vp/build.sh and /opt/vp/test.sh.
"""

import dataclasses

_get_field = dataclasses._get_field


def _get_field_310(cls, a_name, a_type, default_kw_only):
    default = cls.__dict__.get(a_name)
    kind = type(default)

    if (
        cls.__module__.split(".")[0] != "popsynth"
        or isinstance(default, (list, dict, set, dataclasses.Field))
        or not dataclasses.is_dataclass(kind)
        or kind.__hash__ is not None
    ):
        return _get_field(cls, a_name, a_type, default_kw_only)

    kind.__hash__ = object.__hash__
    try:
        return _get_field(cls, a_name, a_type, default_kw_only)
    finally:
        kind.__hash__ = None


dataclasses._get_field = _get_field_310
