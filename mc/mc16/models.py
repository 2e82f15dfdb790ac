from django.db import models


class Category(models.Model):
    name = models.CharField(max_length=20)


class Post(models.Model):
    title = models.CharField(max_length=20)
    category = models.ForeignKey(Category, null=True)


class Other(models.Model):
    title = models.CharField(max_length=20)


class Special(Post):
    extra = models.CharField(max_length=20)


class ProxyPost(Post):
    class Meta:
        proxy = True
