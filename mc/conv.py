"""The four HTML converters."""
from creole import html2creole, html2rest, html2textile, html2markdown
from creole.emitter.html2rest_emitter import Html2restException

TARGETS = {"creole": html2creole, "rest": html2rest, "textile": html2textile, "markdown": html2markdown}
