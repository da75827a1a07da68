"""The check of every claimed property."""
import importlib

CHECKS = {}
NOT_APPLICABLE = {}


def check(prop, technique, level="model_checking", note="", assumptions=()):
    def deco(f):
        CHECKS[prop] = dict(run=f, technique=technique, level=level, note=note, assumptions=list(assumptions))
        return f
    return deco


for m in ("c_loaders", "c_json", "c_pure", "c_http", "c_auth", "c_config", "c_exec", "c_session", "c_compose", "c_routes", "c_render", "c_headers", "c_npo", "c_entities", "c_links", "c_hooks", "c_generate", "c_transforms", "c_grpc", "c_introspect"):
    importlib.import_module(m)
