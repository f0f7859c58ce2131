"""Vocabulary of a check: Sub (one generated sub-check), Rec (per-case record)."""
from __future__ import annotations

import json
from dataclasses import dataclass, field
from typing import Any, Callable


class Violation(AssertionError):
    """The code under test broke the property on this case."""


class HarnessError(RuntimeError):
    """The check itself is broken; never reported as a violation."""


class SkipCase(Exception):
    """The generated case is outside the property's domain."""


class Rec:
    """What one case reports about itself."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False

    def cls(self, *labels):
        self.labels.extend(str(s) for s in labels)

    def mark(self, ok=True):
        if ok:
            self.nontrivial = True


@dataclass
class Sub:
    name: str
    strategy: Callable[[], Any]  # -> hypothesis strategy of JSON-able cases
    check: Callable[[Any, Rec], None]
    quick: int  # examples over all shards
    thorough: int
    max_shards: int = 8
    hang_s: float | None = None  # a case running longer is a violation


@dataclass
class Check:
    property: str
    rule: str
    subs: list = field(default_factory=list)
    assumptions: list = field(default_factory=list)


def canon(case) -> str:
    return json.dumps(case, sort_keys=True, default=repr)


def require(cond, msg, *detail):
    if not cond:
        raise Violation(msg + (": " + "; ".join(str(d) for d in detail) if detail else ""))
