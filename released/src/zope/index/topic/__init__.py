from zope.index.topic.index import TopicIndex  # noqa: F401 imported but unused
