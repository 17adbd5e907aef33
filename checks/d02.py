"""D02 connections are handed over clean and alive"""
import d01


def check(rep):
    d01.check(rep, 'D02')
