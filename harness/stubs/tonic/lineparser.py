# Stand-in for the missing dependency `tonic`: what bglib.record.snowietxt relies on.
#
# A LineParser class has two regular expressions, `_first` and `_last`, made of alternatives that are named groups.
# parse(line) dispatches the first alternative that matches to handle_<name>(text, matchobj); an alternative without a
# handler (results lines) is recognised and otherwise ignored - the module's own tests need that to accept real records.
import re


class LineParser(object):
    _first = ''
    _last = ''

    def parse(self, line):
        pattern = '|'.join([p for p in (self._first, self._last) if p])
        m = re.compile(pattern).match(line)
        if m is None:
            return
        names = sorted([(i, n) for n, i in m.re.groupindex.items() if m.group(n) is not None])
        # the alternatives are the outermost groups, so the one with the lowest number is the alternative itself
        name = names[0][1]
        handler = getattr(self, 'handle_' + name, None)
        if handler is not None:
            handler(m.group(name), m)
