"""C13: survey tables: exact search, consistent rows, footprints, files."""

EXPLAIN = """Every method of ObsTable and DetectorFootprint is interpreted abstractly on symbolic tables and queries; its result, the attributes it leaves behind, the calls it makes
and the inputs it rejects are compared, case by case, with the reference semantics in lcx/refsrc/obs_table.py."""

from ..refs import refrules


def run(cx):
    refrules(cx, "obs_table", {
        "table": "a table copies its input, maps columns to standard names, checks them, merges survey settings and addresses columns by either name",
        "index": "the spatial index and the filter list always describe the rows the table has now",
        "search": "a search returns exactly the positions of the rows within the radius, the time window and the footprint of each query",
        "footprint": "the footprint test rotates the query around the pointing and asks the detector region",
        "files": "tables are read from and written to files without touching existing ones unless asked, and report failures",
    })
    refrules(cx, "surveys", {"surveys": "each survey builds its rows, derived columns and resampled or random tables as documented, from the caller's table"})
