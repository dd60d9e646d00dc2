'''Records the figures that are saved or shown, without drawing them.'''
import contextlib

import matplotlib.figure
import matplotlib.pyplot as plt
import numpy as np


active = []


class Axes:
    def __init__(self, ax):
        self.title, self.xlabel, self.ylabel = ax.get_title(), ax.get_xlabel(), ax.get_ylabel()
        self.lines = [(np.array(l.get_xdata(), dtype=float), np.array(l.get_ydata(), dtype=float), l.get_marker(), l.get_color()) for l in ax.lines]
        self.images = [np.array(i.get_array()) for i in ax.images]
        self.texts = [t.get_text() for t in ax.texts]
        self.patches = [(p.get_x(), p.get_y(), p.get_width(), p.get_height()) for p in ax.patches if hasattr(p, 'get_width')]
        self.collections = [np.concatenate([p.vertices for p in c.get_paths()]) for c in ax.collections if len(c.get_paths())]
        self.xlim, self.ylim = ax.get_xlim(), ax.get_ylim()
        self.at = (ax.get_position().x0, ax.get_position().y0)
        legend = ax.get_legend()
        self.legend = [t.get_text() for t in legend.get_texts()] if legend else []


class Figure:
    def __init__(self, kind, name, fig):
        self.kind, self.name = kind, str(name) if name is not None else None
        self.title = fig._suptitle.get_text() if fig._suptitle is not None else ''
        self.axes = [Axes(a) for a in fig.axes]


@contextlib.contextmanager
def recorded(write=True):
    '''All figures saved (their files are created empty) and shown, in order.'''
    log = []

    def savefig(fig, name, *args, **kwargs):
        log.append(Figure('save', name, fig))
        if write:
            open(name, 'wb').close()

    def show(*args, **kwargs):
        for n in plt.get_fignums():
            log.append(Figure('show', None, plt.figure(n)))

    old = matplotlib.figure.Figure.savefig, plt.show, plt.draw
    matplotlib.figure.Figure.savefig, plt.show, plt.draw = savefig, show, lambda: None
    plt.close('all')
    active.append(log)
    try:
        yield log
    finally:
        active.pop()
        matplotlib.figure.Figure.savefig, plt.show, plt.draw = old
        plt.close('all')


def saved(log):
    return [f for f in log if f.kind == 'save']


def same_groups(image, labels):
    '''The pixels (x, y, colour) have the same colour exactly where the labels are equal.'''
    x, y = len(image), len(image[0])
    flat = [tuple(np.round(image[i][j], 6)) for i in range(x) for j in range(y)]
    labels = [int(v) for v in np.array(labels).reshape(-1)]
    if len(flat) != len(labels):
        return False
    return len(set(zip(flat, labels))) == len(set(flat)) == len(set(labels))
