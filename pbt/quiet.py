"""Importing this silences the noise of the code under test."""

import os
import warnings

warnings.simplefilter("ignore")
os.environ.setdefault("ZKAPAUTHORIZER_HYPOTHESIS_PROFILE", "fast")

from twisted.logger import globalLogBeginner

globalLogBeginner.beginLoggingTo([], redirectStandardIO=False, discardBuffer=True)

from eliot import add_destinations

add_destinations(lambda message: None)

# Every statement that goes through the replicating connection is parsed by
# sqlparse, in Python, which takes most of the time of a generated history.
# The parse of a string does not change: remember it.
from functools import lru_cache

import sqlparse

sqlparse.parse = lru_cache(maxsize=2000)(sqlparse.parse)
