import os
import sys
import zipfile
from pywriter.model.novel import Novel
from pywriter.model.chapter import Chapter
from pywriter.model.scene import Scene
from pywriter.model.character import Character
from pywriter.model.world_element import WorldElement
from pywriter.model.basic_element import BasicElement
from pywriter.yw.yw7_file import Yw7File
from pywriter.converter.yw7_converter import Yw7Converter


class Ui:
    def __init__(self):
        self.how = []
        self.questions = []

    def ask_yes_no(self, text):
        self.questions.append(text)
        return True

    def set_info_how(self, message):
        self.how.append(message)

    def set_info_what(self, message):
        pass

    def show_warning(self, message):
        pass


def novel(contents=('One', 'Two'), titles=('First', 'Second')):
    n = Novel()
    n.title, n.desc, n.authorName = 'Project', 'About', 'Author'
    n.languageCode, n.countryCode = 'en', 'US'
    c = Chapter()
    c.title, c.chLevel, c.chType, c.srtScenes = 'Chapter', 0, 0, []
    n.chapters['1'] = c
    n.srtChapters.append('1')
    for i, t in enumerate(contents):
        s = Scene()
        s.title, s.sceneContent, s.scType, s.status = titles[i], t, 0, 1
        s.desc = f'Description {i + 1}'
        n.scenes[str(i + 1)] = s
        c.srtScenes.append(str(i + 1))
    n.characters['1'] = Character()
    n.characters['1'].title = 'Jane'
    n.characters['1'].isMajor = True
    n.srtCharacters.append('1')
    n.locations['1'] = WorldElement()
    n.locations['1'].title = 'Home'
    n.srtLocations.append('1')
    n.items['1'] = WorldElement()
    n.items['1'].title = 'Key'
    n.srtItems.append('1')
    return n


def save(path, nov):
    f = Yw7File(path)
    f.novel = nov
    f.write()


def load(path):
    f = Yw7File(path)
    f.novel = Novel()
    f.read()
    return f


def convert(path, suffix=None):
    c = Yw7Converter()
    c.ui = Ui()
    c.run(path, suffix=suffix)
    return c


def content(path, name='content.xml'):
    with zipfile.ZipFile(path) as z:
        return z.read(name).decode('utf-8')


def edit(path, change):
    with zipfile.ZipFile(path) as z:
        parts = [(n, z.read(n)) for n in z.namelist()]
    with zipfile.ZipFile(path, 'w') as z:
        for n, data in parts:
            z.writestr(n, change(data.decode('utf-8')).encode('utf-8') if n == 'content.xml' else data)


def same(got, want, what='value'):
    if got != want:
        print(f'{what}: got {got!r}, expected {want!r}')
        sys.exit(1)
