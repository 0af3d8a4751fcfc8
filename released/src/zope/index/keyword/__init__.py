from zope.index.keyword.index import CaseInsensitiveKeywordIndex  # noqa: F401
from zope.index.keyword.index import KeywordIndex  # noqa: F401 unused
