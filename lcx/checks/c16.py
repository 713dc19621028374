"""C16: band fluxes are the documented integral over the right passband."""

EXPLAIN = """The methods of Passband and PassbandGroup are interpreted abstractly; the transmission tables (loaded, regridded, trimmed, normalised), the integral, the group's wavelength
grid and index maps, look-ups, loader arguments and rejected inputs are compared with the reference semantics in lcx/refsrc/passbands.py."""

from ..refs import refrules


def run(cx):
    refrules(cx, "passbands", {
        "integral": "a passband regrids, trims and normalises its own table and integrates flux times phi_b over its own wavelengths with the actual step",
        "group": "a group maps every full name and unambiguous filter name to its own passband and every passband to its own wavelengths of the common grid",
        "loading": "tables are read in their own units and averaged over duplicates; presets and directories build each passband from its own table and settings",
    })
