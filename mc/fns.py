"""Functions a configuration can name."""
CALLS = []


def pre(request_args, service=None, post_args=None, **kwargs):
    CALLS.append(('pre', service.service_name))
    return dict(request_args or {}, x_pre='p&=é', x_last='pre'), {}


def pre2(request_args, service=None, post_args=None, **kwargs):
    CALLS.append(('pre2', service.service_name))
    return dict(request_args or {}, x_pre2=str((request_args or {}).get('x_pre')), x_last='pre2'), {}


def post(request, service=None, **kwargs):
    CALLS.append(('post', service.service_name))
    request['x_post'] = 'q ' + request.get('x_last', '')
    return request


def post2(request, service=None, **kwargs):
    """Another message than the one it was given."""
    CALLS.append(('post2', service.service_name))
    new = request.__class__(**request)
    new['x_post2'] = request.get('x_post', '-')
    return new
