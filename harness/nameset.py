"""The name characters of XML 1.0 (4th edition) above U+007F, read from the specification module XmlChars.tla."""
import os, re
_c = {}

def _load():
    if not _c:
        f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "XmlChars.tla")
        src = open(f).read()
        for k in ("NameStartRanges", "NameRanges"):
            body = re.search(k + r" == <<(.*?)>> >>", src, re.S).group(1) + ">>"
            _c[k] = [c for a, b in re.findall(r"<<(\d+),(\d+)>>", body) for c in range(int(a), int(b) + 1)]
    return _c

def start(): return _load()["NameStartRanges"]
def name(): return _load()["NameRanges"]
