from zope.index.field.index import FieldIndex  # noqa:  F401 unused
