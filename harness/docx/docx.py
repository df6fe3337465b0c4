"""Stand-in for python-docx, which is not installed here: a document is a JSON list of paragraph texts."""
import json


class Run:
    def __init__(self, text):
        self.text = text


class Style:
    def __init__(self, name):
        self.name = name


class Paragraph:
    def __init__(self, text):
        self._text = text
        self.style = Style('PL')

    @property
    def text(self):
        return self._text

    @property
    def runs(self):
        t = self._text
        k = len(t) // 2
        return [Run(x) for x in (t[:k], t[k:]) if x]


class _Document:
    def __init__(self, texts):
        self._paragraphs = [Paragraph(t) for t in texts]
        self.tables = []
        self.sections = []

    @property
    def paragraphs(self):
        return list(self._paragraphs)

    def iter_inner_content(self):
        return iter(self.paragraphs)


def Document(docx=None):
    if hasattr(docx, 'read'):
        data = docx.read()
    else:
        with open(docx, 'rb') as f:
            data = f.read()
    return _Document(json.loads(data.decode('utf-8')))
