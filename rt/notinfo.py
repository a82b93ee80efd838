"""Neither storage nor module"""

info = {'create': None}
