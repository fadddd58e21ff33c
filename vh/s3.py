"""A fake S3 service, standing in for boto3.client before the code under test is imported.

It keeps versions of objects, multipart uploads and paged listings, records everything it is given, can fail the n-th call
before or after it takes effect, or stop answering altogether (as for a process that is killed)."""
import datetime, hashlib, io

import vh.boot as boot
import boto3
import botocore.exceptions as be
from vh import core


class Killed(BaseException):
    """The process is gone."""


class Store:
    """What the service holds."""
    def __init__(self):
        self.objects = {}           # key -> [(version id, bytes)], newest last
        self.uploads = {}           # upload id -> [key, {part: bytes}]
        self.versioning = None
        self.n = 0

    def put(self, key, data):
        self.n += 1
        vid = 'v%d' % self.n
        self.objects.setdefault(key, []).append((vid, bytes(data)))
        return vid

    def get(self, key):
        return self.objects[key][-1][1]

    def copy(self):
        s = Store()
        s.objects = {k: list(v) for k, v in self.objects.items()}
        s.uploads = {k: [v[0], dict(v[1])] for k, v in self.uploads.items()}
        s.versioning, s.n = self.versioning, self.n
        return s


class Env:
    """The service as the next boto3.client() finds it."""
    store = None
    page = 1000
    calls = 0
    fault = None                # (call number, 'before' / 'after' / 'kill-before' / 'kill-after', error number)
    dead = False
    hit = False
    seen = None                 # a list that gets everything sent to the service

    @classmethod
    def reset(cls, store, page=1000):
        cls.store, cls.page = store, page
        cls.seen = None
        cls.arm(None)

    @classmethod
    def arm(cls, fault):
        cls.calls, cls.fault, cls.dead, cls.hit = 0, fault, False, False


def error(k, op):
    return [lambda: be.ClientError({'Error': {'Code': 'InternalError', 'Message': 'We encountered an internal error'}}, op),
            lambda: be.EndpointConnectionError(endpoint_url='https://s3.example'),
            lambda: be.ReadTimeoutError(endpoint_url='https://s3.example'),
            lambda: OSError(104, 'Connection reset by peer')][k % 4]()


def call(op, effect):
    """One request to the service."""
    if Env.dead:
        raise Killed()
    n = Env.calls
    Env.calls += 1
    f = Env.fault
    mine = f is not None and f[0] == n
    if mine:
        Env.hit = True
        if f[1] == 'kill-before':
            Env.dead = True
            raise Killed()
        if f[1] == 'before':
            raise error(f[2], op)
    res = effect()
    if mine:
        if f[1] == 'kill-after':
            Env.dead = True
            raise Killed()
        raise error(f[2], op)
    return res


class Body:
    def __init__(self, data):
        self.f = io.BytesIO(data)
    def read(self, amt=None):
        return call('Read', lambda: self.f.read() if amt is None else self.f.read(amt))
    def iter_chunks(self, chunk_size=1024):
        while True:
            d = self.read(chunk_size)
            if d == b'':
                return
            yield d
    def close(self):
        pass
    def __enter__(self):
        return self
    def __exit__(self, *a):
        pass


class NoSuchKey(be.ClientError):
    def __init__(self, op='GetObject'):
        be.ClientError.__init__(self, {'Error': {'Code': 'NoSuchKey', 'Message': 'The specified key does not exist.'},
                                       'ResponseMetadata': {'HTTPStatusCode': 404}}, op)

class NoSuchUpload(be.ClientError):
    def __init__(self):
        be.ClientError.__init__(self, {'Error': {'Code': 'NoSuchUpload', 'Message': 'The specified upload does not exist.'}}, 'UploadPart')


class Client:
    BUCKET = 'bucket'

    class exceptions:           # pylint: disable=invalid-name
        NoSuchKey = NoSuchKey
        NoSuchUpload = NoSuchUpload
        ClientError = be.ClientError

    def _do(self, op, kw, effect):
        if kw.get('Bucket') != self.BUCKET:
            raise be.ClientError({'Error': {'Code': 'NoSuchBucket', 'Message': 'The specified bucket does not exist'}}, op)
        if Env.seen is not None:
            Env.seen.append((op, kw))
        return call(op, effect)

    # ------------------------------------------------------------ bucket
    def get_bucket_versioning(self, **kw):
        return self._do('GetBucketVersioning', kw, lambda: {} if Env.store.versioning is None else {'Status': Env.store.versioning})

    def put_bucket_versioning(self, **kw):
        def go():
            Env.store.versioning = kw['VersioningConfiguration']['Status']
        return self._do('PutBucketVersioning', kw, go)

    def head_bucket(self, **kw):
        return self._do('HeadBucket', kw, dict)

    # ------------------------------------------------------------ objects
    @staticmethod
    def _bytes(body):
        return body.encode('utf8') if isinstance(body, str) else bytes(body) if not hasattr(body, 'read') else body.read()

    def put_object(self, **kw):
        data = self._bytes(kw.get('Body', b''))
        return self._do('PutObject', dict(kw, Body=data), lambda: {'VersionId': Env.store.put(kw['Key'], data), 'ETag': etag(data)})

    def _find(self, kw, op):
        for vid, data in reversed(Env.store.objects.get(kw['Key'], [])):
            if 'VersionId' not in kw or kw['VersionId'] == vid:
                return vid, data
        raise NoSuchKey(op)

    def get_object(self, **kw):
        def go():
            vid, data = self._find(kw, 'GetObject')
            return {'VersionId': vid, 'Body': Body(data), 'ContentLength': len(data), 'ContentType': 'binary/octet-stream', 'Metadata': {},
                    'LastModified': datetime.datetime(2024, 1, 1), 'ETag': etag(data)}
        return self._do('GetObject', kw, go)

    def head_object(self, **kw):
        def go():
            if kw['Key'] not in Env.store.objects:
                raise be.ClientError({'Error': {'Code': '404', 'Message': 'Not Found'}, 'ResponseMetadata': {'HTTPStatusCode': 404}}, 'HeadObject')
            vid, data = self._find(kw, 'HeadObject')
            return {'VersionId': vid, 'ContentLength': len(data), 'Metadata': {}, 'ETag': etag(data)}
        return self._do('HeadObject', kw, go)

    def delete_object(self, **kw):
        return self._do('DeleteObject', kw, lambda: {} if Env.store.objects.pop(kw['Key'], None) else {})

    # ------------------------------------------------------------ listings
    def _page(self, kw, after):
        pre = kw.get('Prefix', '')
        keys = sorted((k for k in Env.store.objects if k.startswith(pre) and k > after), key=lambda k: k.encode())
        n = min(Env.page, kw.get('MaxKeys', 1000))
        res = {'IsTruncated': len(keys) > n, 'Name': self.BUCKET, 'Prefix': pre, 'MaxKeys': n}
        if keys:
            res['Contents'] = [{'Key': k, 'Size': len(Env.store.get(k)), 'ETag': etag(Env.store.get(k))} for k in keys[:n]]
        return res, keys[:n]

    def list_objects(self, **kw):
        def go():
            res, _ = self._page(kw, kw.get('Marker', ''))
            res['Marker'] = kw.get('Marker', '')
            return res
        return self._do('ListObjects', kw, go)

    def list_objects_v2(self, **kw):
        def go():
            after = kw.get('ContinuationToken', kw.get('StartAfter', ''))
            res, keys = self._page(kw, after)
            res['KeyCount'] = len(keys)
            if res['IsTruncated']:
                res['NextContinuationToken'] = keys[-1]
            return res
        return self._do('ListObjectsV2', kw, go)

    def get_paginator(self, name):
        client = self
        class P:
            def paginate(self, **kw):
                f = getattr(client, name)
                while True:
                    res = f(**kw)
                    yield res
                    if not res['IsTruncated']:
                        return
                    if name == 'list_objects':
                        kw['Marker'] = res['Contents'][-1]['Key']
                    else:
                        kw['ContinuationToken'] = res['NextContinuationToken']
        if name not in ('list_objects', 'list_objects_v2'):
            raise NotImplementedError(name)
        return P()

    # ------------------------------------------------------------ multipart
    def create_multipart_upload(self, **kw):
        def go():
            Env.store.n += 1
            uid = 'u%d' % Env.store.n
            Env.store.uploads[uid] = [kw['Key'], {}]
            return {'UploadId': uid, 'Key': kw['Key'], 'Bucket': kw['Bucket']}
        return self._do('CreateMultipartUpload', kw, go)

    def _upload(self, kw):
        up = Env.store.uploads.get(kw['UploadId'])
        if up is None or up[0] != kw['Key']:
            raise NoSuchUpload()
        return up

    def upload_part(self, **kw):
        data = self._bytes(kw['Body'])
        def go():
            if not 1 <= kw['PartNumber'] <= 10000:
                raise be.ClientError({'Error': {'Code': 'InvalidArgument', 'Message': 'Part number must be an integer between 1 and 10000'}}, 'UploadPart')
            self._upload(kw)[1][kw['PartNumber']] = data
            return {'ETag': etag(data)}
        return self._do('UploadPart', dict(kw, Body=data), go)

    def complete_multipart_upload(self, **kw):
        def go():
            _, parts = self._upload(kw)
            want = kw.get('MultipartUpload', {}).get('Parts', [])
            nums = [p['PartNumber'] for p in want]
            if not nums or nums != sorted(set(nums)):
                raise be.ClientError({'Error': {'Code': 'MalformedXML' if not nums else 'InvalidPartOrder', 'Message': 'bad list of parts'}}, 'CompleteMultipartUpload')
            for p in want:
                if p['PartNumber'] not in parts or etag(parts[p['PartNumber']]) != p['ETag']:
                    raise be.ClientError({'Error': {'Code': 'InvalidPart', 'Message': 'One or more of the specified parts could not be found'}}, 'CompleteMultipartUpload')
            vid = Env.store.put(kw['Key'], b''.join(parts[n] for n in nums))
            del Env.store.uploads[kw['UploadId']]
            return {'VersionId': vid, 'Key': kw['Key']}
        return self._do('CompleteMultipartUpload', kw, go)

    def abort_multipart_upload(self, **kw):
        def go():
            self._upload(kw)
            del Env.store.uploads[kw['UploadId']]
            return {}
        return self._do('AbortMultipartUpload', kw, go)

    def list_multipart_uploads(self, **kw):
        def go():
            ups = [{'UploadId': u, 'Key': v[0]} for u, v in sorted(Env.store.uploads.items())]
            res = {'IsTruncated': False}
            if ups:
                res['Uploads'] = ups
            return res
        return self._do('ListMultipartUploads', kw, go)


def etag(data):
    return '"%s"' % hashlib.md5(data).hexdigest()


def client(*a, **k):
    if Env.seen is not None:
        Env.seen.append(('client', k))
    if Env.store is None:
        raise RuntimeError('no store')
    return Client()


boto3.client = client

from bversion import repo_manager           # pylint: disable=wrong-import-position
boot.check_module_location(repo_manager)


PASSWORD = 'the backup password'
_base = None

def base_store():
    """A store that has been used before, the same salt for every case of this process (deriving keys takes long)."""
    global _base
    if _base is None:
        Env.reset(Store())
        Env.store.versioning = 'Enabled'
        repo_manager.init(config({}))
        repo_manager.backup()
        _base = Env.store
    return _base.copy()


def config(repositories, password=PASSWORD, chunk=None):
    c = {'repositories': repositories, 's3': {'access_key': 'ACCESS', 'secret_key': 'SECRETACCESSKEY', 'bucket': Client.BUCKET, 'endpoint': 'https://s3.example'},
         'crypto': {'crypt_password': password}}
    if chunk is not None:
        c['chunk_size'] = chunk
    return c
