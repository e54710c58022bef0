# Property -> harness binary that decides it, and the manifest's notes.
HARNESS = {}   # id -> harness binaries, each run in turn
ASSUMPTIONS = {}
TECH = {}
NOTE = {}


def _reg(h, *ids, tech=None, note=None, assume=None):
    for i in ids:
        HARNESS[i] = h.split()
        if tech:
            TECH[i] = tech
        if note:
            NOTE[i] = note
        ASSUMPTIONS[i] = list(assume or [])


_reg("h_grid", "G01", "G02", "G03",
     tech="stateful property-based testing against a reference model",
     assume=["language models never offer the same word twice for one reading",
             "conversions whose best segmentation is not unique are compared by score only"])
_reg("h_data", "D01", "A01", "K01", "U01", "M01",
     tech="property-based testing against an independent reference",
     assume=["dictionary files are sorted by key (in any order within a key), and every row has a reading and a value"])
_reg("h_num", "N01", "N02",
     tech="property-based testing against an independent generator and read-back")
_reg("h_num", "X01",
     tech="property-based testing under a virtual clock against independent calendar arithmetic",
     assume=["lunar dates are compared with the same calendar library applied to noon of the civil day",
             "zones with daylight saving are limited to 1996-2036, where libc and ICU data agree"])
_reg("h_mandarin", "B01", "B02",
     tech="stateful property-based testing against an independent table of symbols, keys and spellings")
_reg("h_uom", "O01",
     tech="stateful property-based testing against a reference model",
     assume=["words whose strengths coincide to 1e-9 may be suggested in either order"])
_reg("h_files h_engine", "F01",
     tech="stateful property-based testing against a reference model, on scratch user directories",
     assume=["edits give a file a new modification time", "only the replacement file is ever removed while the input method runs"])
_reg("h_files", "F02",
     tech="property-based testing with injected file faults, differential against in-memory data",
     assume=["unreadable files cannot be produced as root and are represented by unusable paths"])
_reg("h_files", "F03",
     tech="stateful property-based testing with injected file faults against a reference model, on scratch user directories",
     assume=["the tests run as root, so permission faults are represented by obstructed paths",
             "a file in use is replaced, not cut short in place"])
_reg("h_keys h_engine", "S01", "S02", "S03", "S04", "S05", "S06", "S07", "S08",
     tech="stateful property-based testing of key histories against a reference model",
     assume=["the reading buffer behaves as B01 says and numerals as N01 and N02 say",
             "settings change only while nothing is composed",
             "histories end where the best conversion is not unique"])
_reg("h_keys", "D02",
     tech="stateful property-based testing of look-ups and key histories over the shipped tables, against their rows and a reference model",
     assume=["the main dictionary is not in the repository; the plain one serves in smart mode as well",
             "the reading buffer behaves as B01 says"])
_reg("h_keys h_num h_engine", "C01",
     tech="stateful property-based testing under generated locales, differential against a reference model in the C locale",
     assume=["the locales are compiled by the C library's localedef, from the definitions in the sandbox",
             "messages are not translated here; that is L01's"])
_reg("h_engine", "E01", "E02", "E03", "E04",
     tech="stateful property-based testing of event histories against a reference model",
     assume=["the events are delivered through the fcitx library of the sandbox, without a running display or bus",
             "processes are recorded by a stand-in instead of started",
             "key histories obey what S01-S08 describe; from a conversion that is not unique on, only the invariants are checked",
             "CapsLock is generated only in the invariant-checked part"])
_reg("h_engine", "L01",
     tech="stateful property-based testing of event histories in generated languages against a reference model and the catalogues as written",
     assume=["the catalogues are compiled and bound by the harness as the build and the installed add-on would",
             "the desktop's and the library's own texts are not translated here"])
_reg("h_hook", "H01",
     tech="stateful property-based testing of script runs in scratch repositories",
     assume=["git is installed and the user's name and address are configured",
             "the other machine adds lines and files, and never removes any"])
