"""Observes the figures written to PDF files: the lines each of them shows."""
import numpy as np

from .hub import hub

SHEETS = None


def start():
    global SHEETS
    SHEETS = []


def stop():
    global SHEETS
    out, SHEETS = SHEETS, None
    return out or []


def lines_of(fig):
    out = []
    for ax in fig.axes:
        for line in ax.get_lines():
            x, y = line.get_data()
            out.append([np.array(x, dtype=float), np.array(y, dtype=float)])
    return out


def note(name, fig):
    if SHEETS is not None and hub.active:
        SHEETS.append({"file": str(name), "lines": lines_of(fig) if fig is not None else []})


def install():
    import matplotlib.backends.backend_pdf as pdf
    real = pdf.PdfPages

    class PdfPages(real):
        def __init__(self, filename, *a, **kw):
            self.name_ = filename
            super().__init__(filename, *a, **kw)

        def savefig(self, figure=None, **kw):
            if not hub.active:
                return super().savefig(figure, **kw)
            if hub.fs is not None or not hub.draw:
                # the page is not rendered: what it shows is recorded
                import matplotlib.pyplot as plt
                note(self.name_, figure if hasattr(figure, "axes") else plt.gcf())
                hub.event("page")
                return None
            note(self.name_, figure if hasattr(figure, "axes") else None)
            return super().savefig(figure, **kw)

    PdfPages.__name__ = "PdfPages"
    pdf.PdfPages = PdfPages

    from matplotlib.figure import Figure
    real_savefig = Figure.savefig

    def savefig(self, fname, *a, **kw):
        if hub.active and isinstance(fname, (str, bytes)) or hasattr(fname, "__fspath__"):
            note(fname, self)
        return real_savefig(self, fname, *a, **kw)
    Figure.savefig = savefig
