"""Drive displayed plots without rendering them."""
import contextlib
from unittest import mock
import matplotlib.pyplot as plt
from matplotlib.backends.backend_agg import FigureCanvasAgg
from matplotlib.backend_bases import MouseEvent, KeyEvent


@contextlib.contextmanager
def headless():
    """Nothing is rendered (slow and not checked); figures are closed afterwards."""
    with mock.patch.object(FigureCanvasAgg, 'draw', lambda *a, **k: None):
        try:
            yield
        finally:
            plt.close('all')


def mouse(plot, ax, x, y, button=1, key=None, name='button_press_event', coords='data'):
    c = plot.fig.canvas
    px, py = (ax.transData if coords == 'data' else ax.transAxes).transform((x, y))
    ev = MouseEvent(name, c, px, py, button=button, key=key)
    c.callbacks.process(name, ev)
    return ev


def drag(plot, ax, p, q):
    """Press at p, release at q (data coordinates); positions as seen by the events."""
    a = mouse(plot, ax, *p)
    b = mouse(plot, ax, *q, name='button_release_event')
    return ((a.xdata, a.ydata), (b.xdata, b.ydata)) if a.inaxes is ax and b.inaxes is ax else None


def press_button(plot, label=None):
    """Click in the middle of a button of the plot."""
    btn = [b for b in plot.btn_store if label is None or b.label.get_text().replace('\n', ' ') == label][0]
    for name in ('button_press_event', 'button_release_event'):
        mouse(plot, btn.ax, 0.5, 0.5, name=name, coords='axes')


def key(plot, k):
    for name in ('key_press_event', 'key_release_event'):
        plot.fig.canvas.callbacks.process(name, KeyEvent(name, plot.fig.canvas, k))
