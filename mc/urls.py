from django.conf.urls import url

current = [None]        # the view of the moment
urlpatterns = [url(r'^v$', lambda request: current[0](request))]
