"""Stand-in for multicommand.create_parser."""
import argparse
import importlib
import pkgutil


def create_parser(pkg):
    root = argparse.ArgumentParser(prog="kli")

    def fill(parser, package):
        subs = parser.add_subparsers(title="subcommands", metavar=" ")
        for mi in pkgutil.iter_modules(package.__path__):
            mod = importlib.import_module(f"{package.__name__}.{mi.name}")
            name = mi.name.rstrip("_")
            if mi.ispkg:
                fill(subs.add_parser(name), mod)
            elif hasattr(mod, "parser"):
                p = mod.parser
                sp = subs.add_parser(name, parents=[p], add_help=False, description=p.description, conflict_handler="resolve")
                sp.set_defaults(**p._defaults)
    fill(root, pkg)
    return root
