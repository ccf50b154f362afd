"""All specifications."""
import os, glob
EXTRA = sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'inst', '*.cpp')))
from . import db, codec, misc, parser, client, session, server, tcp
