"""The only module that imports the code under test (from /repo's working tree)."""
import os
import sys
import warnings

REPO = os.environ.get("NDMV_REPO", "/repo")
if REPO not in sys.path[:1]:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

import ccsds_ndm  # noqa: E402

assert os.path.realpath(ccsds_ndm.__file__).startswith(os.path.realpath(REPO) + os.sep), ccsds_ndm.__file__
import ccsds_ndm.models.ndmxml2 as models  # noqa: E402
from ccsds_ndm.ndm_io import NDMFileFormats, NdmIo  # noqa: E402
from ccsds_ndm.ndm_kvn_io import NdmKvnIo  # noqa: E402
from ccsds_ndm.ndm_xml_io import NdmXmlIo  # noqa: E402
