#!/usr/bin/env python3
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
if os.environ.get("SA_INNER") != "1":
    os.environ["SA_INNER"] = "1"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["PYTHONHASHSEED"] = "0"
    py = os.environ.get("SA_PYTHON", "/opt/venv/bin/python")
    os.execv(py, [py, os.path.join(HERE, "run.py"), *sys.argv[1:]])
sys.path.insert(0, HERE)
from sa.main import main  # noqa: E402

sys.exit(main())
