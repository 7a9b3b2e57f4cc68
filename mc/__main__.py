import argparse
import sys

from . import runner

parser = argparse.ArgumentParser(prog="mc")
sub = parser.add_subparsers(dest="command", required=True)
p = sub.add_parser("run")
p.add_argument("property")
p.add_argument("--tier", choices=("quick", "thorough"))
p.add_argument("--jobs", type=int)
p.add_argument("--only", help="only work items whose description contains this text")
p = sub.add_parser("replay")
p.add_argument("path")
args = parser.parse_args()

if args.command == "run":
    sys.exit(runner.run(args.property, args.tier, args.jobs, args.only))
else:
    sys.exit(runner.replay(args.path))
