import cv2
import datetime
from pathlib import Path
from mushroom_rl.utils.record import VideoRecorder


def VideoRecorder___init__(self, path='./mushroom_rl_recordings', tag=None, video_name=None, fps=60):
    if tag is None:
        date_time = datetime.datetime.now()
        tag = date_time.strftime('%d-%m-%Y_%H-%M-%S')
    self._path = Path(path)
    self._path = self._path / tag
    self._video_name = video_name if video_name else 'recording'
    self._counter = 0
    self._fps = fps
    self._video_writer = None


def VideoRecorder___call__(self, frame):
    assert frame is not None
    if self._video_writer is None:
        height, width = frame.shape[:2]
        self._create_video_writer(height, width)
    self._video_writer.write(cv2.cvtColor(frame, cv2.COLOR_RGB2BGR))


def VideoRecorder__create_video_writer(self, height, width):
    name = self._video_name
    if self._counter > 0:
        name += f'-{self._counter}.mp4'
    else:
        name += '.mp4'
    self._path.mkdir(parents=True, exist_ok=True)
    path = self._path / name
    self._video_writer = cv2.VideoWriter(str(path), cv2.VideoWriter_fourcc('m', 'p', '4', 'v'), self._fps, (width, height))


def VideoRecorder_stop(self):
    cv2.destroyAllWindows()
    if self._video_writer is not None:
        self._video_writer.release()
        self._video_writer = None
        self._counter += 1
