"""Reads back what a styled table shows, from its html."""

import html.parser
import re


class _Reader(html.parser.HTMLParser):

  def __init__(self):
    super().__init__(convert_charrefs=True)
    self.css = ""
    self.caption = ""
    self.rows = []
    self._cell = None
    self._in = None

  def handle_starttag(self, tag, attrs):
    attrs = dict(attrs)
    if tag == "style":
      self._in = "style"
    elif tag == "caption":
      self._in = "caption"
    elif tag == "tr":
      self.rows.append([])
    elif tag in ("td", "th"):
      self._cell = dict(tag=tag, id=attrs.get("id", ""), classes=attrs.get("class", "").split(),
                        colspan=int(attrs.get("colspan", 1)), text="",
                        hidden="display: none" in attrs.get("style", ""))
      self.rows[-1].append(self._cell)

  def handle_endtag(self, tag):
    if tag in ("style", "caption"):
      self._in = None
    elif tag in ("td", "th"):
      self._cell = None

  def handle_data(self, data):
    if self._in == "style":
      self.css += data
    elif self._in == "caption":
      self.caption += data
    elif self._cell is not None:
      self._cell["text"] += data


def read(styler):
  """{caption, columns: [(level names)...], index: [label], cells: [[{text, style}]]}."""
  reader = _Reader()
  reader.feed(styler.to_html())
  styles = {}
  for selectors, body in re.findall(r"([^{}]+)\{([^{}]*)\}", reader.css):
    rules = {}
    for rule in body.split(";"):
      if ":" in rule:
        k, v = rule.split(":", 1)
        rules[k.strip()] = v.strip()
    for selector in selectors.split(","):
      selector = selector.strip()
      if re.fullmatch(r"#\S*row\d+_col\d+", selector):
        styles.setdefault(selector[1:], {}).update(rules)
  headers, index, cells = [], [], []
  for row in reader.rows:
    row = [c for c in row if not c["hidden"]]
    data = [c for c in row if c["tag"] == "td"]
    if data:
      index.append(" ".join(c["text"].strip() for c in row if c["tag"] == "th"))
      cells.append([dict(text=c["text"].strip(), style=styles.get(c["id"], {})) for c in data])
    else:
      level = []
      for c in row:
        if "col_heading" in c["classes"]:
          level += [c["text"].strip()] * c["colspan"]
      if level:
        headers.append(level)
  columns = list(zip(*headers)) if headers else []
  return dict(caption=reader.caption.strip(), columns=columns, index=index, cells=cells)
