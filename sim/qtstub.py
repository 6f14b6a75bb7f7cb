"""A small in-process stand-in for PyQt6 (not installed here) with the semantics the GUI depends
on: value ranges and rounding of spin boxes, change signals, layouts, and the documented fate of an
exception leaving a slot (reported through sys.excepthook if the application installed one,
otherwise the application is aborted)."""
import inspect
import sys
import types


class State:
    """What the running application did."""

    def __init__(self):
        self.loop = None            # called by QApplication.exec()
        self.dialog = None          # result of the next file dialog: callable(filters) -> (name, filter)
        self.reported = []          # errors shown to the user
        self.aborted = None         # error that aborted the application
        self.windows = []
        self.default_hook = sys.excepthook


S = State()


class Aborted(BaseException):
    """The application was aborted (qFatal): nothing of it runs any more."""


def call_slot(slot, args):
    try:
        n = None
        try:
            sig = inspect.signature(slot)
            ps = list(sig.parameters.values())
            if not any(p.kind == p.VAR_POSITIONAL for p in ps):
                n = len([p for p in ps if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)])
                # a default-valued parameter is filled from the signal, as PyQt does
        except (TypeError, ValueError):
            pass
        slot(*(args if n is None else args[:n]))
    except Aborted:
        raise
    except BaseException as e:
        if sys.excepthook is S.default_hook:
            S.aborted = e
            raise Aborted() from e
        S.reported.append(e)
        try:
            sys.excepthook(type(e), e, e.__traceback__)
        except BaseException:
            pass


class Signal:
    def __init__(self):
        self.slots = []

    def connect(self, slot, *a, **k):
        self.slots.append(slot)
        return slot

    def disconnect(self, slot=None):
        if slot is None:
            self.slots.clear()
        else:
            self.slots.remove(slot)

    def emit(self, *args):
        for s in list(self.slots):
            call_slot(s, args)


class Any:
    """Constants and helper objects nobody looks at."""

    def __init__(self, *a, **k):
        pass

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Any()

    def __call__(self, *a, **k):
        return Any()

    def __or__(self, o):
        return self

    def __iter__(self):
        return iter(())


class AnyMeta(type):
    def __getattr__(cls, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Any()


class QObject(metaclass=AnyMeta):
    def __init__(self, *a, **k):
        self._blocked = False

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        if name.endswith(("ed", "Changed")) and name not in ("setEnabled", "setChecked"):
            s = Signal()
            self.__dict__[name] = s
            return s
        return Any()

    def deleteLater(self):
        pass

    def blockSignals(self, b):
        old = self.__dict__.get("_blocked", False)
        self._blocked = b
        return old

    def _emit(self, name, *args):
        if not self.__dict__.get("_blocked"):
            getattr(self, name).emit(*args)


class QLayout(QObject):
    def __init__(self, parent=None, *a):
        super().__init__()
        self._items = []
        if isinstance(parent, QWidget):
            parent.setLayout(self)

    def addWidget(self, w, *a, **k):
        self._items.append(w)

    def addLayout(self, l, *a, **k):
        self._items.append(l)

    def addRow(self, *a):
        for x in a:
            self._items.append(QLabel(x) if isinstance(x, str) else x)

    def addItem(self, x):
        self._items.append(x)

    def insertWidget(self, i, w, *a):
        if i < 0 or i > len(self._items):
            i = len(self._items)
        self._items.insert(i, w)

    insertLayout = insertWidget

    def indexOf(self, w):
        for i, x in enumerate(self._items):
            if x is w:
                return i
        return -1

    def removeWidget(self, w):
        self._items = [x for x in self._items if x is not w]

    removeItem = removeWidget

    def replaceWidget(self, a, b, *k):
        self._items = [b if x is a else x for x in self._items]

    def count(self):
        return len(self._items)

    def itemAt(self, i):
        return LayoutItem(self._items[i]) if 0 <= i < len(self._items) else None

    def takeAt(self, i):
        return LayoutItem(self._items.pop(i))


class LayoutItem:
    def __init__(self, x):
        self.x = x

    def widget(self):
        return self.x if isinstance(self.x, QWidget) else None

    def layout(self):
        return self.x if isinstance(self.x, QLayout) else None


class QWidget(QObject):
    def __init__(self, *a, **k):
        super().__init__()
        self._layout = None
        self._kids = []
        self._enabled = True

    def setLayout(self, l):
        self._layout = l

    def layout(self):
        return self._layout

    def setEnabled(self, b):
        self._enabled = bool(b)

    def setDisabled(self, b):
        self._enabled = not b

    def isEnabled(self):
        return self._enabled

    def show(self):
        if isinstance(self, QMainWindow):
            S.windows.append(self)

    def close(self):
        return True


class QFrame(QWidget):
    pass


class QMainWindow(QWidget):
    def setCentralWidget(self, w):
        self._kids = [w]

    def centralWidget(self):
        return self._kids[0] if self._kids else None


class QSplitter(QWidget):
    def addWidget(self, w):
        self._kids.append(w)


class QScrollArea(QWidget):
    def setWidget(self, w):
        self._kids = [w]

    def widget(self):
        return self._kids[0]


class QLabel(QWidget):
    def __init__(self, text="", *a):
        super().__init__()
        self._text = text

    def text(self):
        return self._text

    def setText(self, t):
        self._text = t


class QPushButton(QWidget):
    def __init__(self, text="", *a):
        super().__init__()
        self._text = text
        self.clicked = Signal()
        self.pressed = Signal()
        self.released = Signal()

    def text(self):
        return self._text

    def setText(self, t):
        self._text = t

    def click(self):
        if self._enabled and not self._blocked:
            self.pressed.emit()
            self.released.emit()
            self.clicked.emit(False)


class QComboBox(QWidget):
    def __init__(self, *a):
        super().__init__()
        self._list = []
        self._i = -1
        self.currentTextChanged = Signal()
        self.currentIndexChanged = Signal()
        self.textActivated = Signal()
        self.activated = Signal()

    def addItems(self, items):
        for x in items:
            self.addItem(x)

    def addItem(self, x, *a):
        self._list.append(x)
        if self._i < 0:
            self.setCurrentIndex(0)

    def count(self):
        return len(self._list)

    def itemText(self, i):
        return self._list[i]

    def findText(self, t):
        return self._list.index(t) if t in self._list else -1

    def currentText(self):
        return self._list[self._i] if self._i >= 0 else ""

    def currentIndex(self):
        return self._i

    def setCurrentIndex(self, i):
        if i != self._i:
            self._i = i
            self._emit("currentIndexChanged", i)
            self._emit("currentTextChanged", self.currentText())

    def setCurrentText(self, t):
        if t in self._list:
            self.setCurrentIndex(self._list.index(t))

    def user_select(self, t):
        """What the user does."""
        self.setCurrentText(t)
        self._emit("activated", self._i)
        self._emit("textActivated", t)


class QAbstractSpinBox(QWidget):
    pass


class QSpinBox(QAbstractSpinBox):
    def __init__(self, *a):
        super().__init__()
        self._lo, self._hi, self._v = 0, 99, 0
        self.valueChanged = Signal()
        self.editingFinished = Signal()

    def _fix(self, v):
        if not isinstance(v, int) or isinstance(v, bool):
            if isinstance(v, float):
                raise TypeError("setValue(self, val: int): argument 1 has unexpected type 'float'")
            v = int(v)
        return min(max(v, self._lo), self._hi)

    def value(self):
        return self._v

    def setValue(self, v):
        v = self._fix(v)
        if v != self._v:
            self._v = v
            self._emit("valueChanged", v)

    def setRange(self, a, b):
        self._lo, self._hi = a, max(a, b)
        self.setValue(self._v)

    def setMinimum(self, a):
        self.setRange(a, self._hi)

    def setMaximum(self, b):
        self.setRange(min(self._lo, b), b)

    def minimum(self):
        return self._lo

    def maximum(self):
        return self._hi

    def user_set(self, v):
        self.setValue(v)
        self._emit("editingFinished")


class QDoubleSpinBox(QSpinBox):
    def __init__(self, *a):
        super().__init__()
        self._lo, self._hi, self._v, self._dec = 0.0, 99.99, 0.0, 2

    def _fix(self, v):
        return min(max(round(float(v), self._dec), self._lo), self._hi)

    def setDecimals(self, d):
        self._dec = d
        self._lo, self._hi = round(self._lo, d), round(self._hi, d)
        self.setValue(self._v)

    def decimals(self):
        return self._dec


class QCheckBox(QWidget):
    def __init__(self, text="", *a):
        super().__init__()
        self._c = False
        self.stateChanged = Signal()
        self.toggled = Signal()
        self.clicked = Signal()
        self.checkStateChanged = Signal()

    def isChecked(self):
        return self._c

    def setChecked(self, b):
        b = bool(b)
        if b != self._c:
            self._c = b
            self._emit("stateChanged", 2 if b else 0)
            self._emit("toggled", b)

    def checkState(self):
        return 2 if self._c else 0

    def user_set(self, b):
        if bool(b) != self._c:
            self.setChecked(b)
            self._emit("clicked", bool(b))


class QFileDialog(QWidget):
    @staticmethod
    def getSaveFileName(parent=None, caption="", directory="", filter="", *a, **k):
        return S.dialog(filter)


class _Box(QWidget):
    """Message boxes: errors shown to the user."""

    @staticmethod
    def critical(*a, **k):
        S.reported.append(a)
        return Any()

    warning = critical
    about = critical
    information = critical

    def exec(self):
        S.reported.append(self)
        return 0


class QApplication(QObject):
    _inst = None

    def __init__(self, *a):
        super().__init__()
        QApplication._inst = self

    @staticmethod
    def instance():
        return QApplication._inst

    @staticmethod
    def processEvents(*a):
        pass

    def exec(self):
        return S.loop()

    exec_ = exec


class StubModule(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        base = QLayout if name.endswith("Layout") else QWidget
        c = AnyMeta(name, (base,), {})
        setattr(self, name, c)
        return c


def install(extra=None):
    """Put the stand-in modules into sys.modules."""
    S.__init__()
    qw = StubModule("PyQt6.QtWidgets")
    for c in (QApplication, QCheckBox, QComboBox, QDoubleSpinBox, QLabel, QMainWindow, QPushButton,
              QSpinBox, QWidget, QSplitter, QFrame, QFileDialog, QScrollArea):
        setattr(qw, c.__name__, c)
    qw.QMessageBox = _Box
    qw.QErrorMessage = _Box
    qc = StubModule("PyQt6.QtCore")
    qc.QObject = QObject
    qc.Qt = Any()
    qc.QUrl = Any
    qc.pyqtSlot = lambda *a, **k: (lambda f: f)
    qc.pyqtSignal = lambda *a, **k: Signal()
    mods = {"PyQt6": StubModule("PyQt6"), "PyQt6.QtWidgets": qw, "PyQt6.QtCore": qc,
            "PyQt6.QtGui": StubModule("PyQt6.QtGui"),
            "PyQt6.QtWebEngineWidgets": StubModule("PyQt6.QtWebEngineWidgets"),
            "PyQt6.QtWebEngineCore": StubModule("PyQt6.QtWebEngineCore")}
    top = mods["PyQt6"]
    top.__path__ = []
    for k, m in mods.items():
        if "." in k:
            setattr(top, k.split(".")[1], m)
    mods["PyQt6.QtWebEngineCore"].QWebEngineSettings = Any()
    sys.modules.update(mods)
    sys.modules.update(extra or {})
    return S


# ------------------------------------------------------------------ looking at the window
def children(x):
    if isinstance(x, QLayout):
        yield from x._items
    elif isinstance(x, QWidget):
        yield from x.__dict__.get("_kids", [])
        if x.__dict__.get("_layout") is not None:
            yield x._layout


def walk(x):
    yield x
    for c in children(x):
        yield from walk(c)


def find(x, cls):
    return [w for w in walk(x) if isinstance(w, cls)]


def path_to(root, target):
    if root is target:
        return [root]
    for c in children(root):
        p = path_to(c, target)
        if p:
            return [root] + p
    return None
