"""Shared canonical views of table columns and survey values, used by several checks."""

from .interp import NONE
from .norm import subterms

ROWSEL = ("iloc", "loc", "values", "array")


def mentions(t, name):
    return any(x == ("s", name) for x in subterms(t))


def table_rw(index="index", survey=True):
    """Rewrite 'column c of the rows selected by `index`' to the symbol col.c and survey value k to sv.k,
    whatever accessor spelling is used."""

    def colname(t):
        # ("item", base, ("k", name)) -> name
        if t[0] == "item" and t[2][0] == "k" and isinstance(t[2][1], str):
            return t[2][1]
        return None

    def rw(t):
        if t[0] == "item":
            c = colname(t)
            if survey and c is not None and t[1][0] == "attr" and t[1][2] == "survey_values":
                return ("s", "sv." + c)
            if index is not None and c is not None and mentions(t[1], index) and rows(t[1]):
                return ("s", "col." + c)
            if index is not None and t[2] == ("s", index):
                b = t[1]
                if b[0] == "attr" and b[2] in ROWSEL:
                    b = b[1]
                if b[0] == "mcall" and b[1] == "to_numpy":
                    b = b[2]
                c = colname(b)
                if c is not None:
                    return ("s", "col." + c)
        elif survey and t[0] == "mcall" and t[1] in ("get", "safe_get_survey_value") and len(t) >= 4 and t[3][0] == "k":
            if t[2][0] == "attr" and t[2][2] == "survey_values":
                return ("s", "sv." + str(t[3][1]))
        elif t[0] == "mcall" and t[1] == "take" and len(t) == 4 and index is not None and t[3] == ("s", index):
            c = colname(t[2])
            if c is not None:
                return ("s", "col." + c)
        return None

    def rows(t):
        """t is a row selection of a table by `index`."""
        if t[0] == "mcall" and t[1] in ("copy", "reset_index") and len(t) >= 3:
            return rows(t[2])
        if t[0] == "mcall" and t[1] == "take":
            return True
        return t[0] == "item" and t[1][0] == "attr" and t[1][2] in ("iloc", "loc")

    return rw


def columns_rw():
    """Column c of the instance's own table -> col.c; survey value k -> sv.k."""

    def rw(t):
        if t[0] == "item" and t[2][0] == "k" and isinstance(t[2][1], str):
            if t[1][0] == "attr" and t[1][2] == "survey_values":
                return ("s", "sv." + t[2][1])
            return ("s", "col." + t[2][1])
        if t[0] == "mcall" and t[1] in ("get",) and len(t) >= 4 and t[3][0] == "k" and t[2][0] == "attr" and t[2][2] == "survey_values":
            return ("s", "sv." + str(t[3][1]))
        return None

    return rw


def fields(t):
    """Column / survey-value symbols a term depends on."""
    return {x[1] for x in subterms(t) if x[0] == "s" and isinstance(x[1], str) and x[1].startswith(("col.", "sv."))}
