"""The part of urwid 4.2 which the viewer uses: what its documentation says, without drawing (an assumed contract on a dependency).

Interpreted by the engine in place of the real urwid; harness/h23.py and harness/h24.py run the real one.
"""
ACTIVATE = 'activate'
CURSOR_RIGHT = 'cursor right'
CURSOR_LEFT = 'cursor left'
CURSOR_UP = 'cursor up'
CURSOR_DOWN = 'cursor down'


class ExitMainLoop(Exception):
    pass


class CommandMap(object):

    def __init__(self):
        self.commands = {'tab': 'next selectable', 'ctrl n': 'next selectable', 'shift tab': 'prev selectable',
                         'ctrl p': 'prev selectable', 'ctrl l': 'redraw screen', 'esc': 'menu', 'up': CURSOR_UP,
                         'down': CURSOR_DOWN, 'left': CURSOR_LEFT, 'right': CURSOR_RIGHT, 'page up': 'cursor page up',
                         'page down': 'cursor page down', 'home': 'cursor max left', 'end': 'cursor max right',
                         ' ': ACTIVATE, 'enter': ACTIVATE}

    def __getitem__(self, key):
        return self.commands.get(key, None)

    def __setitem__(self, key, command):
        self.commands[key] = command


command_map = CommandMap()


def connect_signal(obj, name, callback, user_arg=None, weak_args=(), user_args=()):
    if name not in obj.signals:
        raise NameError('no such signal')
    if getattr(obj, '_handlers', None) is None:
        obj._handlers = []
    obj._handlers.append((name, callback, user_arg, tuple(weak_args) + tuple(user_args)))


def emit_signal(obj, name, *args):
    result = False
    for n, callback, user_arg, user_args in tuple(getattr(obj, '_handlers', None) or ()):
        if n == name:
            last = () if user_arg is None else (user_arg,)
            if callback(*(user_args + args + last)):
                result = True
    return result


class Widget(object):
    signals = []
    _command_map = command_map
    no_cache = []

    def _invalidate(self):
        pass

    @property
    def base_widget(self):
        w = self
        if isinstance(w, WidgetDecoration):
            w = w.original_widget
        if isinstance(w, WidgetDecoration):
            w = w.original_widget
        if isinstance(w, WidgetDecoration):
            w = w.original_widget
        if isinstance(w, WidgetDecoration):
            raise NotImplementedError('more decorations')
        return w

    def selectable(self):
        return False


class WidgetDecoration(Widget):

    def __init__(self, original_widget):
        self._original_widget = original_widget

    @property
    def original_widget(self):
        return self._original_widget

    @original_widget.setter
    def original_widget(self, w):
        self._original_widget = w

    def selectable(self):
        return self._original_widget.selectable()


class WidgetWrap(Widget):

    def __init__(self, w):
        self._wrapped = w

    @property
    def _w(self):
        return self._wrapped

    @_w.setter
    def _w(self, w):
        self._wrapped = w

    def selectable(self):
        return self._wrapped.selectable()

    def keypress(self, size, key):
        return self._wrapped.keypress(size, key)


class AttrMap(WidgetDecoration):

    def __init__(self, w, attr_map, focus_map=None):
        super(AttrMap, self).__init__(w)
        self._attr_map = attr_map if isinstance(attr_map, dict) else {None: attr_map}
        self._focus_map = focus_map

    def set_attr_map(self, attr_map):
        self._attr_map = attr_map

    def get_attr_map(self):
        return self._attr_map

    def set_focus_map(self, focus_map):
        self._focus_map = focus_map

    @property
    def attr_map(self):
        return self._attr_map

    @attr_map.setter
    def attr_map(self, attr_map):
        self._attr_map = attr_map


class AttrWrap(AttrMap):
    pass


class Padding(WidgetDecoration):

    def __init__(self, w, align='left', width=None, min_width=None, left=0, right=0):
        super(Padding, self).__init__(w)
        self.left = left
        self.right = right


class Filler(WidgetDecoration):

    def __init__(self, body, *args, **kwargs):
        super(Filler, self).__init__(body)


class BoxAdapter(WidgetDecoration):

    def __init__(self, box_widget, height):
        super(BoxAdapter, self).__init__(box_widget)
        self.height = height


class Text(Widget):

    def __init__(self, markup, align='left', wrap='space', layout=None):
        self.markup = markup
        self.align = align
        self.wrap = wrap

    def set_text(self, markup):
        self.markup = markup

    def get_text(self):
        """the text and its attributes; here only for a plain text, with one attribute or none"""
        if isinstance(self.markup, tuple):
            return self.markup[1], [(self.markup[0], None)]
        if isinstance(self.markup, list):
            raise NotImplementedError('text of a list')
        return self.markup, []

    @property
    def text(self):
        return self.get_text()[0]


class SelectableIcon(Text):

    def __init__(self, text, cursor_position=0, align='left', wrap='space', layout=None):
        super(SelectableIcon, self).__init__(text, align, wrap, layout)

    def selectable(self):
        return True


class WidgetList(object):
    """the widgets of the contents of a container"""

    def __init__(self, container):
        self.container = container

    def __getitem__(self, i):
        return self.container.contents[i][0]

    def __setitem__(self, i, widget):
        self.container.contents[i] = (widget, self.container.contents[i][1])

    def __len__(self):
        return len(self.container.contents)


class Container(Widget):

    def __init__(self, widget_list=(), dividechars=0, *args, **kwargs):
        contents = []
        for w in widget_list:
            if isinstance(w, tuple):
                contents.append((w[-1], w[:-1]))
            else:
                contents.append((w, ('weight', 1)))
        self._contents = contents

    @property
    def contents(self):
        return self._contents

    @contents.setter
    def contents(self, contents):
        self._contents = list(contents)

    @property
    def widget_list(self):
        return WidgetList(self)


class Columns(Container):
    pass


class Pile(Container):
    pass


class Frame(Widget):

    def __init__(self, body, header=None, footer=None, focus_part='body'):
        self.body = body
        self.header = header
        self.footer = footer

    def keypress(self, size, key):
        return self.body.keypress(size, key)


class ListBox(Widget):

    def __init__(self, body):
        self.body = body

    def get_focus(self):
        return self.body.get_focus()

    def set_focus(self, position, coming_from=None):
        self.body.get_focus()
        self.body.set_focus(position)

    @property
    def focus_position(self):
        return self.body.get_focus()[1]

    @property
    def focus(self):
        return self.body.get_focus()[0]

    def change_focus(self, size, position, offset_inset=0, coming_from=None, cursor_coords=None, snap_rows=None):
        self.body.set_focus(position)

    def keypress(self, size, key):
        """keys for the widget in focus"""
        return self.focus.keypress(size, key)


class TreeListBox(ListBox):

    def keypress(self, size, key):
        unhandled = super(TreeListBox, self).keypress(size, key)
        if unhandled:
            return self.unhandled_input(size, unhandled)
        return None

    def unhandled_input(self, size, data):
        if data == 'left':
            self.move_focus_to_parent(size)
            return None
        if data == '-':
            self.collapse_focus_parent(size)
            return None
        return data

    def collapse_focus_parent(self, size):
        pos = self.body.get_focus()[1]
        self.move_focus_to_parent(size)
        if pos is not self.body.get_focus()[1]:
            self.keypress(size, '-')

    def move_focus_to_parent(self, size):
        parent = self.body.get_focus()[1].get_parent()
        if parent is not None:
            self.change_focus(size, parent)


class TreeWalker(object):
    signals = ['modified']

    def __init__(self, start_from):
        self.focus = start_from

    def get_focus(self):
        widget = self.focus.get_widget()
        return widget, self.focus

    def set_focus(self, focus):
        self.focus = focus


class TreeWidget(WidgetWrap):
    indent_cols = 3

    def __init__(self, node):
        self._node = node
        self._innerwidget = None
        self.is_leaf = not isinstance(node, ParentNode)
        self.expanded = True
        widget = self.get_indented_widget()
        super(TreeWidget, self).__init__(widget)

    def selectable(self):
        return not self.is_leaf

    def get_inner_widget(self):
        if self._innerwidget is None:
            self._innerwidget = self.load_inner_widget()
        return self._innerwidget

    def get_node(self):
        return self._node

    def first_child(self):
        if self.is_leaf or not self.expanded:
            return None
        if self._node.has_children():
            return self._node.get_first_child().get_widget()
        return None

    def keypress(self, size, key):
        if self.is_leaf:
            return key
        if key in ('+', 'right'):
            self.expanded = True
            self.update_expanded_icon()
            return None
        elif key == '-':
            self.expanded = False
            self.update_expanded_icon()
            return None
        # the icon does not handle keys
        return key


class TreeNode(object):

    def __init__(self, value, parent=None, key=None, depth=None):
        self._key = key
        self._parent = parent
        self._value = value
        self._depth = depth
        self._widget = None

    def get_widget(self, reload=False):
        if self._widget is None or reload:
            self._widget = self.load_widget()
        return self._widget

    def get_depth(self):
        if self._depth is None:
            self._depth = 0 if self._parent is None else self._parent.get_depth() + 1
        return self._depth

    def get_key(self):
        return self._key

    def get_parent(self):
        return self._parent

    def get_value(self):
        return self._value

    def is_root(self):
        return self.get_depth() == 0

    def get_root(self):
        root = self
        while root.get_parent() is not None:
            root = root.get_parent()
        return root


class ParentNode(TreeNode):

    def __init__(self, value, parent=None, key=None, depth=None):
        super(ParentNode, self).__init__(value, parent, key, depth)
        self._child_keys = None
        self._children = {}

    def get_child_keys(self, reload=False):
        if self._child_keys is None or reload:
            self._child_keys = self.load_child_keys()
        return self._child_keys

    def get_child_node(self, key, reload=False):
        if key not in self._children or reload:
            self._children[key] = self.load_child_node(key)
        return self._children[key]

    def has_children(self):
        return len(self.get_child_keys()) > 0

    def get_first_child(self):
        return self.get_child_node(self.get_child_keys()[0])


class MainLoop(object):

    def __init__(self, widget, palette=(), screen=None, handle_mouse=True, input_filter=None, unhandled_input=None,
                 event_loop=None, pop_ups=False):
        self.widget = widget
        self.palette = palette
        self.unhandled_input = unhandled_input
        self.event_loop = event_loop
        self.screen = screen
