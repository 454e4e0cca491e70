// RSA keys of more than 2048 bits (made with openssl genrsa): the base64 of their PKCS#1 private keys.
#pragma once
namespace keys {
static const struct { int bits; const char* text; } bigTexts[] = {
  {2056,
    "MIIEpgIBAAKCAQIAndQB/XptfI5njwwGK7ogHQnMQ8IFr7BfvAZ0tTd40qnvjVbMpZKvVxfal2RfsfJAogPZcZq5r71jCcS8p0cCE+3K1Y1GwbRYsVMI4UoFcUby0GPo"
    "rKsa5QAuBo/W4ZXCTh36L4/COat3R3lugJedhQA91njUDmrpCRvQtnamASi/vs35l/ZTR8pnf2hB+VqOSG1I8W/KcEq1ydunOH8MK25hBVScSGF5e4OIZ3vVCtXTND+H"
    "SHyvoQLWrc1jxWvAxdQW0BIm1xigFjc58acQN2poVtp6A2aOo8EiHkQhpGj8P8HSJbnpaJR80XU/TcFWRXxSik8N0BvHmqCTIJANpHsCAwEAAQKCAQEOPHrned0ZYKD/"
    "urZtyE6wP9uAeyZXKCIijDSHyhaobfKxPZSdFMOjKAAsKr4lB3SECLPa9vlr3DnsPiZEMngCAy+KHsG0pEdhy1sgMzSVeLBbUr/An3iAEomURvI7i+4obLTOCHodCJXs"
    "SQxKJiLrxc9OIr0CBeu6ShuD8eTccuXAJltqwEqKX1+pUWMoOdoC/gkzeq8ac4WgZiSDKCy1sDymX78j5/YeZ+RwyhVDBPEvLuiBuqDA6/A1PtK39QMeIf6HqxRvCJKI"
    "CfmhzbS017Qo7WJnSJtG6nt79K+3/TutIwtUfFqNjIxWJ4yzk4QYZtif7WediUHSwlOJrrK7kQKBgQ0Xl5fLcTF1enpd/HqNSERHAOpb5RgUrF6jWVz2VkLeHOeZjSn9"
    "EFmUsuEch57ZsZOHRR8J22qJd+7+cVT5ptuxW2ZDSGls98oJz8PgiCF/Dn/mKj95iDJtuF5OG5jnWjLGdnoXGRNgSNED8/sV03lvx1OHAqI8iyJ4Qp+8a4TtsQKBgQwO"
    "H4ONAO3/34wYsV8z52gLbMA3LyrIzsYwXvTpgUlnx7oMr1MhHIHoVIv7GQTiYcFZLZuOPbuuhMWNaCQ93nEaDZEPU9YjFeCGBvKZ6HQvc+u0PjDwalekMSbKU4zueKle"
    "U78k90WieuwaP0Dr+9I6gL872qev2Vbb5xCDgdxj6wKBgFp3rBBAwO4D3VO2IfS4U6d6/dh3KZw9Pty358t6bpmiPBon9k8vZsudvHfRrVcA9RN8qSbR9mE5jIjvtDR8"
    "7YcvCWadiML5OUnkgswHwKe2U3t5/nagV4QgquL+2bS8+Yvj3M3MznoV3RZ3OnrPV4LN5ZJKXui1dLu8SKWEXXUxAoGBAfxhnJ4hxRMdlEqNDY3TVQRsyc1Na9LgnS1i"
    "tx2wOpNqB3AHgb42n//Rza1zlaZlTCCQrstjyAMbxB9jRHUcq60LBxZrTR9Cf1YU1uobrOgURIPQqucv3Xgi0K0Lzm+KWPw894PzZ/k4HqTEPsGhHiSdCOOnRXBmcTSQ"
    "f9vqDJA5AoGBAXVWa3uQWVjUOoLz/RCOz31VPEG9GDS31k5OPujm9lwDsUIotKg/clJ7KsbZpQFjLU9I27yAH7SJ3dATGeL9xIkD2E9IQKUNYxRhKUFcKsOyfN72dS3z"
    "jtBoz8j2IJ8cJbIa780jTcl/nDuUu9SsfSJAxAQI/c5h10r/D0kvi7Jg"},
  {3072,
    "MIIG5AIBAAKCAYEAu1U4WWaH0MJi6NL0s3sittqXTaWtZMxm9AxLlfcIw0UpcR3sEIvPEL/uUJFC341TJHZzWynJJaKc+0MPkDl2fF1fASDOgWNRyFHnf0zu/0wEdjgh"
    "Ky9HaqKxPGNgJLGaJMoaFO82mpc3GE+zGRed4iGJlAlZCBhoxwNfD2s3/zRRB8aIvx5Q1gPTePBMhVhSc5yX0NRrQ51vMy3acRIK00ocNbUo40e0BqMjDPvPKKdJB/R2"
    "dklw+7mk/3EJmL/Q80ofSrdUJwqmNQk3AEAxNw9fwrNX+Xew6gCf5tcadkyWJ5GnUjz6GR41Q9b3GQ0FDOuik7Cu0YRY/vMpVItVlsS33vccL62OceIqmfhG6v/CWs7K"
    "Os+dvKM7XCmzV6BAsfGuXNXYI7Z+fVHxTmstQKm5rDW1ZyA20tI9S5N7ePgCph9r3OtVmowap0OX0WsrQ2E5idFtY1pFvaE7k1bm5+JYBaG2Ci1+tQ3Fkqi/r60wJdsQ"
    "FXvycRGmufoMDPHVAgMBAAECggGAFGrybFQPg4JcU3ICt7k5DGMA0La5El5w7jKU3nCBZP8ZyDlxrFAArpustt1OQ51crYG3iv0f7lkt8PjbLmYE8wMeQro3p8SSelnq"
    "+GYDOpInflcZzmIlz4qR9LoEFZvB6Daa5yM3eVv35k9xfs+jJq1vGFJ4gLhgWyiT6NNP1CH4nvdVmjcMqnbaSrkuLe51diJgLaOpWUJEh3h88Yv84BCYyIXJQhRjm8GW"
    "JWkgqBarkBFmA/h3NwiB4lGIsTxeswdjXOqhJ+NNkHHELcbnR0YEpPVfMS/wgCB5grrj01VehFDpqj88OD+Zz1aiyTsp6CHWTnu1wXj2gFF3fu+ZU9xduWGv/IUHgDn9"
    "Let6USdMdtG9WP0fP521vwoH9bYgJ90+0J1n0jyRUbqAnkGrjjKFTp5vlbGOtHcRqz/FrtQ5FzcEHDWjoOsR8lwEEIQUoa2LfqDIfDeckA7zJKUz+PdMXzEgks+Yq0vZ"
    "9Gd5d9gvBJDwGyODMUnHiSniQNdVAoHBAOcIzH5sEJsfVbPclluD27RkICe3mt5rt8xKPs23K/zC9rTHqCbM50H7p/K+GZn0pnNUNbpfuq1QVF+Z4i54D6C02/JiG9h8"
    "3DJ8qNpU6WA6dgq5kOF1+O0YqTEjrje0MLo/pNlFP0QoeJ0k4zpL6ATG4DprewuD+17BUfQ5ennuO6seGA3XsO3zhU0CnPoj0nwD1yK87Du/ug57PC942gwP1Kl4XsoG"
    "2zz8JHWT0c5XPWaGtgxMW4wSJYN1eEgpwwKBwQDPk30mLd+AJcCMF+0Ii44Fy1Pa/eI3EYDooqUT8xOh0F/9AXoFYUqEbKE1sy9JVou2BW+iA/+IIhlvXHA98NuuZPTX"
    "bA9HNJDxm5LiDl99mHoTSsw6Z270InsPivKtO7zkeKJWb24hO/eHhBifvd2y8QYPNI5J77k2bj1wB27AG5efAH3N8FjtApCkaBnk//xJRp7JIFz+K4X/X8yVor/6NE5x"
    "k1N0LvjOYxVCcl3nAsUrNRNk1zKowNQA9X3qpIcCgcEAvsIlFr1jeLGGsduQyj81SNzjL+gJl1yZhbRH5tM3Hpxb1yiDToYg6/o90c/kk5nNVaxSMHCaUj/hao5EktnP"
    "DYJHmPoow7dUmNsVEDDMAQhELtbJKV+fCSUzjb9IOfYtxZqHIl5qvnwsGpQ6igfiqw8KVTIphniTNMmqQVy0I7jwy3kto0BUdiR8C/n8Ywzw3jTNjYEwDKVhmlNmfkvq"
    "vcrUbJlWqri+jLwj3nEO6rBdoinYZo8lh6H0F3cGuY7BAoHBAJPSVaptup9YwzFBDKUsNNy9ep8WdBWBWorQ4Lw/O7jdWq4jchEIwvdhIMDMNR2GC4J5hpEbRctddT2P"
    "18LUlq0v6gjLRGoR7jKQ9t4THD+l6TF578ybwjELqRVdfwqM4yzVF850FjqGqPURxjNkE9CNwiHr7HSMyhoQEaKJOH6IZ8ZspCqXQcyvKfBazi39el14dDWI3ZCH0CoX"
    "v+rD9vEodMB/CUxQ8xCPESG7rlGH8H+fkYsbkVEJ2TBBowUJWwKBwF0CO9K8I77tebfqbqY6iKe4NOlAWJkcBnjjZtbmPxXLdntwsh1fqiveUzfc8MjK2qXkGG9HQtHO"
    "gfqy55pvTL5UtV5e1XKZV1wa2TVZjwaO8tiVSXYAbTVuDClDmHuyTQbwR+cMH1nnGYQMX0PPpNI723NjXClFBfCTEGinbAwV6ttU/04JtxlpcfoXmtJhCPWtWaljBEtB"
    "AZRqdmcNey+1ZcvqIrA7u/NgIya7Cb62QecoIcbUT2k/ZrMT5SXr5Q=="},
  {4096,
    "MIIJKAIBAAKCAgEA5287ypOmKfYuyqwsbmjLdKlPUQFkd3dRDG+1UE9XF9/hRVGqH4vNnBSXErFYK1Qe2TIDorU59RYggwYXnJ2BzJvjrgVk/WUb/1V0Cpopa/RZZqGI"
    "DyKdbj+nbB16b0EglbhjFTTzXAF0YdPnMkhGQ+iZFqqy/YlECHLskwnpc0BmxgmQXjRu6nGTjmRYEnAcXRDmxuCxZioKtARFZHroYUYeXM9r3RNaZ2QvTt5QpwxIXmWP"
    "bjQmexkcNfwmVeyFN4H9AJBkKkRy3PE9pzTH2Pp7AAuXzbbkZlcgW4oFKphqNNVvoNIsCiW3q4X/RtzNRPuBhGD2SXra90wydwYeJUXlm8axoWqbR91dpmuGhbg6FjXw"
    "sGp76sEfSWU2NLMh+2JmQ78cp0+z2hinTw9TCEzTZBEHBPmIBk8OhxWmJ1mkasbzlHLBEY+H4/Uyg91+MTaN7gbMhIJq2m/HZRgHaR4J3MZeJRKV4lTRBq1tA6Sx1Rcs"
    "SgJnTs1zf7ahHEm8fF0viAU7Q9VCSVu+HlRp2Il9rR68BmgUwINhiyPz1wPZtNroHk5tGXOlT7mKeHhZeE/0M6vzl2ARC3s7eQB4cSrd62oEaZ23dI1kh2Z2h6IvfXcg"
    "8haWCPuAPe7T5GWEN9o2fBR749LUfAmkc/ovfweTbVyHqiKmmru+uFeq9q0CAwEAAQKCAgBIYkxnmBVs42AQKJh+8czMkJXLpq1XBhz10Ex7sUzynSWWaivU0QN+URxN"
    "DuWeK6G4WcG0Vo0pgAGsKTAiXkr2BT3JNEu5SzHeAsqX9E6HQrXheR0WasOlc0g4cuHTwSFhYnmu7NA+kv/lBwM1AVDktW+IHNx9mryKDfO7K2r2Dor2XpBmPm0Aa4R0"
    "kSLQpXrhisM7KZSiePy+/+T6P8zFe8pMSd2ZGA/67WU0fCjqjldmGsqo86ujbZ+arOIKlr61tTS9w+toIt9wBg276bClxvXIdlfE0fKOpaprpvflsiTpoGXY/VMj21ce"
    "UPseHTogXK9OCYuOQNwSY6UW//VWJ6fqYefjt2mrFgYwi34ve0WRtqKuhHBex+YPthM+5xu70gTavxUVZVb7tOQKfUvD6GMBGhiSFZnxedXJ+XE4IYNODcJDVNJbD92u"
    "EpUFwQYmjY2PVAOyfbKz9RmFWIdQBtNWXwCKpDo//LvKQjmol/EIib8TJzTkidMhqL7yYdShikyMbAKhxFUhFT0poQuv+Drf2+U62Bd6g6owc0AGfEykzEH07sA30WB7"
    "p4crJt6DfoDSJmd1RSbRq/zrf/JJXbkX2D8zjedZXJa5qMNzlroDEJi3YhAVJR5xlfW5ZrXspow+hxFiEbhwl+tQ/5efXP3NZ+NF7LeHERJsL0gmOwKCAQEA/gQi524s"
    "0+70MCJtGDXJ+Yipv3fGK4N8Qc4mq7tFcS0aSvi1ECXjVJEWuwMxQZxm10TuKJpOCpE0XeUxgakT7qp4o9eTgCIaHup2aWw2DFK5wsb961H+maLf1bcOGWgk2/rBJe7K"
    "JswV2KKaVTrXls9swNxErSvmaLSG4WPoySrtWlYATtkVDV9jdWGS/HECUGJ7Gz5CRyjdYUlTIGXngX5voQKCqTK8C86SKjTfZ8Uw5onXGELdI76hI0C71JR6hRUeQYJC"
    "hstAdqw1WgjDZInFFZIpvk/J0bxDIUTyse+bPR601bJFksBU+dsYISspg/YKe/io7l6jHXHgb+iVawKCAQEA6T3y64mAEzF09VXE5czAsovrHU/0US5oYv48gc2m1Xdf"
    "+UOYnP5wxZVDxSfhXQ51mEPzCyFe1nwWJI0+u3I5jrC9I0yMcKLNX4H+8Ye9oJABNpcpVriuscti9XedYKrpiKmyx+I0ibkyoRcP4Sx5FLboUWvt8wvwZLM9DRvXMKyX"
    "6SB5FjHaEO5zpJO/sKef8HH9JJfXQhuYW5fKI8iQVImt9oBV/WaYT3Mc2nQhz1hrV+bI3ns4lSHnHubuV/Y021hqU3CdKY7WEElzG6IWEZPWj2inJqRp5iwU+b3jE8m5"
    "cHnf8fxN7ITNaj91ehpPP9IWE/MwsFNinPn3nPgSRwKCAQAYK5SWqOkjEW2y1tPCpfud/t8IFQGKSmycZl1PofYtmrkRwTCZZMGI3nVnPhqFv7gZa7mtq2EZqE9vT8uy"
    "JsB6yUXJcU3bt2L85hp2VZGfApAidITcy2SKgfECiPSSflJjjCysy1f48RpzDqXYzkyNURdsEomGYNL/y426DKOt4KPNILnOxuE18ImqNaqi0q4BsB0+rmHoG39VLoD2"
    "aDvrGnjMvUxphSZXiURnN7i6Sw0oIp2Q9WvNZuo2TIaS573ww92pJhfmc5iisigxdPwCqQlT0CCgtz7g8iUBGWpue/otiqpyWxA7soljbPGS1mSQ5eyBd1u7ss2ak6dj"
    "fqIZAoIBAQDHxhS742C8j77Sp6zm+zINe8Rcre/gXLRyHborn76G1iFw+ZHM3i4vPcL3KkpgDxNv4LtaTDHT2iKJGiWiHZro+b52bolXrEnlxQ1dSNuFm/I+FMkGi1at"
    "2DuhbdtxQdKXCGqlw70mPWb9DSi/v/zRXjysCJqdcxtq1Q60nKT6/sl6lyK/fOF/YQ3R5+7m2xwlsSyWXCu2ZrZftSog7heZIPfMy21bhrVsT3dmMNQIqX3/ox9nV/lF"
    "2uz/zeJVmv745MjlQO6L+tikyJR8FZ97XLoIySVp9qbxy84HfrnxZ/WaPfkvZeBEdhcPKt1vQPuh+UqJueF5FWLAe2W3n87fAoIBABypDi9S8GQX/oUxjjQxQeskztf1"
    "otwOV63md/5rZvYoUj3x3lXpC5/hHxNY6Tzf3Iohjd/IrIoMgiZ0SR0i7V9+vS5fE9QtfX0Q19VqR0act9yzSJTf4nBVVGzlTZwE7KwwNVDcaQJ5KfmX/cD0331yOi8G"
    "+hvRXVu61m+oN1eJ61Vw6S+DfyyNQ3ckKhoFfUggkEeQU2BcRK9Eg7TxgLLyE4ImMyBnrpB84q36q0vpkd/3lvRfZfdw2oWF7oNLYiZjkn7xiy0WBFmxWoRerT02AEWF"
    "QKTtW7+6V9UbgivKU3hDW+SR6WjTUvqtc4QbcdQX0gdTqkdXzij8sIEcLz4="},
  {4104,
    "MIIJLAIBAAKCAgIAsPv2wi2yWxiBqxOwjYeomnqvWvWkZGiIwM5b0/FLctXKX40T5JDtIAU49kE8oBIpSa7PJmmTckOfLY07GJYVNDl0SnAQw1EXu7hykgxEjLNQCDXt"
    "seMN0D0XvCF4Phw9bGLPU6fklS8Rym+jJ7CoPluFHTFEa8Oy/C/WBxCsPr8eeBn0ZH9nvt9g7J/d3jy5JkglD+1qT1zyZuZC5H3lrFKlkqbw8+Tqx6T4ozDAii8/u/VL"
    "CfS5GSO77HW0aUFdp73ZbJX+88xxLXHatWTI+1UsEU2wj+5q7a38q1ormB6mzu/KHHz5m8fGUSgDR5bhCw4/x007suiH5egGOllNmPluSXAFL2vaLWCmyA2zEqYO5C6E"
    "2wGcjFJP9FA9vh9tDiYFA5p1GEOfThpghxl3L92NYDX2sFbshaNADM8j2dF3ztRscIXnRHAv2SSqOS9dgLt6rkfO6i+UGi56/h/ZFaDfo5MhrvzphwAJONUuHUik/LVA"
    "W4QBt1YIoVa0FCtYBwsOdMP7gLLle+i8ECKui7kpK5hpRXIH7Vgne+CJ4fTp6FtGGpjSBkMY1zwWq1QzuVljgsDmR9i6Y7/GhnNM0RET1vU+CXO1p8wkA01giio7B0it"
    "cZfPeTt0LsSOATslZ8PcfYVjnX66Na+AkIjRsG3eb4IwnT9Nc0MA+6hkvmnlAgMBAAECggIBJAY5aTdrdyrjE+s3U+uRyFXiFRnsawqzEUm/u8GA+cAmB/J7otnUBmFB"
    "wbAwMqXXtRmJrTgurMKyZw95AK1l5gIu10r9wn/iXJGz8mHgXyJNj0pI1l1Qzbrttpu6cawGXaY0LMM/HhWdYa79DwJgkIbI7tL9KhFEwJvNDRWZ9dCpl0kzK3Sabani"
    "vO9idg62oiHrt1T8P2i8J3FFmuQ8aGnPLW1hHMfS+S2tdWwiOM5awvuwGTfwqDsTkJM51HXbZh4Y4EccxMuvmtAytBruZOgmhuQhJP7i0XvJcyhwuK8+hV8eLNPMa+bL"
    "SXAjUMJXjsxI85yXIvi9VrD2eZB9YLkyRW+vS51sM64T0n/k7AQJAu9q0KoaR4ToVv+EotPTVC78wvD2EqEgMIpv8kKd/OtX1VNLr8/HIejlBwRzoByqWzmmQp9q241W"
    "LQfxsFU4qL1ZMfZoGnifek8acAXwFTf1V3hde2X9F7ASj7X68sJyxOFdjTA55D8n4K9zc8qhxzHwX8GoY8PK7h3zDvhStif2K5B9YimX/Ol3IFLW5XiUyx23NiVTRGzS"
    "oA+geBU7oZ4yEeOQSYc6Pao2alfNpujmoAduldVtMTvCyhqfoW+iIu9ssWXghNsEPctv97fOLPuGbkTqGcBDhtL73Vim78Cq8DLKNzu4r2LkqQe2pGSBAoIBAQ4JQ5aO"
    "uqOXsn5tISeub+igkVYQj34We0UGGu0HBLpGt1BduelA0Rj3XJrX1xUVetf5TT1Arw5O6ijpOos9pnTK6xqXM5grf61RcMw6v6n17Nv6re1AnQlW2l0zqo3Afs8CxEWP"
    "oQOuhD/pSSGuzTDgBTD+4Kim/V8vKp0YfEd0q3xq+iMJkat1HAPwEvcVX9w6uazzwFroWSkNjSac4cclCi12KfsQf0iFM9QeMQnGyjBX4xdJHFeU/pMOIZrVwzeotypl"
    "OeIc8fqpl+3OBLniW4dqRbz41IJ1OeR9otMCsBT7BlWlgHxEg7hYY5KvYuLvn2/McDKK9L+5ljsiWy+BAoIBAQyb8IFgoWpxwSZt2+PAFBOe9pKpicZlHle8qOPymFvk"
    "WzuYiodaiupye/nu0SiJf5uHuzDEVqUVJxDx1iC10I/306iIY15/sAz2+WziP9SiQknFJjrD3XlWFCIJyLaoP4oVV6xQ9ZF5zyN4dnLEw7H4sHNdSoUDfFi6xWzCsdRm"
    "W2xpGNKFhszuoxyYbMbGsnCRvlbQLc5uPxkLqxHkW+Ci4c5LJbO1ApR7GuqlDmQ+Gh4M389W8Ift/R5TX2fUavnsEXrRuW1asTQryuvHxkPWOGrR5rbGmufn6EI5dnss"
    "xdKnat52b/vFb5gQJbKLImA5ll2aADY6TguHEpef2qxlAoIBAQEB90E60/lkraLX8NZpdo1L4cM9AyA5OvZUnuA/bb51zzlM0UkGpzxUnehb8IwJ87zHoBzypN6xGayA"
    "Ofy/G1EtND2/dyvIi60EuMVgvlvUVQHh+FSdG+kMvDaOvALbO/9eonqf+h5KjCIOfHqXkxGcM6M12Skie/Q2bafDl0CGBr2y7GxRhoy5pp49wQ7OEQi9ipD5Gukr3yLM"
    "X0LTZn4mkZl77z2gDJNHRNZIqJqcE+3ukVYdoJRFFRW3oP/9srsvOJ8pj0NFcrXdMRQYg0xZDNsm7QTJFHCdO9/EiUj+22dWMjk53YSOYqp8ZgGk58OFEnwzQCbQxQty"
    "pm9uYv+BAoIBAQECVew0zJZVRk0KC8gdbj3nwfoY4XLkUtpYufeMSc9I5lhNrACLKYT75popF8ozvue2pC+R9xE9MSQ1BpsVkfyDrAfX6oP8mh1fgrTJIqyk08NNqPKZ"
    "DFeSoQfcWpjrvDIT5TFgRVcANai0El67CqJqscx50eX1UnVTdUtwBYVnL7fsbVUj5JbwHlPCiyoZatyBfYc7H/9eaWRav7Ut3oCK6KF2+Cx6txslAxF2ZkF1iueOxja0"
    "0Yk/bbuIlqEbqfgYgYmf0URENtxjCNl34pE5SsiZxeoo2Orob3klWisfeTGTvoTRW8L9mSHFYQ75/aVP1o3lLlEot2hKxh0maPzVAoIBAQeAbvqOPhslHn2SjyiFJXYd"
    "iYSjBWyADWjFv37qN6zicsp/1vDkEmN1cVbrBKEwY0vy4uyl25qQArL5i3e/FRhe7PuWcFUxfNLnVtrdhx9vv7p2o3g+Bj79UYBLdzcS70lLUl9oiU/Yuhv7V4PPiyj9"
    "3CYF6S9/ZRa3+NRYXPTV3iCUzQn8i4wlkFnBARyBoD9WOfbWpMRVhCoE4fzm1zoHwzK5Ly8l9PT99kGF+vL669PsYBVir0dFBYKrlh9O086kpMFM0eoK8TKprJ24RQsd"
    "Vv592NoRAR6FJP9ZsFcnfxz8hZKXcC4hAnbgy6+hOD7DSMUygqOnD0/kNdo1DiQY"},
  {8192,
    "MIISKQIBAAKCBAEA5WiMW+qz5u6hE2BMaC/CcrayKXLEs3LmPuC9QjBBbHzXw1LG72GhkvX0PUo8m8cZ7irdrDLLR7kFY34X7We0fWFwFAGFpeS6hKbCiSnXm8VVNiGl"
    "nvqIbgcLWtw7c0DbZNEOMcLhil8eIzvsX/qwhmbqcC2RfahrsrCiHahzSw87hcHg2Ge/RGaTGT5dGWyxmmHO4PIdy/nbhRbsFAHiU8Amjwvx9Ohl9a2+8tZJXjFv/jVN"
    "sIgoQCzzAjJdbaVJp4tc+Hm48ITNIH9NLIUJ916+G210lzkHzsge0slUTQsVz2644Z+PUpt1ubxPgtEQbkSR5pz/IFiBUBxVFWdh5ugpLm9UgrQ53XSXg4PiGwx/fIA2"
    "mNmlvsx0zlrO5kb3pmvsLTc4nvn0dB1ewV7HK53CnZdgdhUa8BqnyF/+/gYZwSt79WCDBpH7jFKphQDiiFSxaAvpA+TeIKZbD659fhDu/FBuRClm2q1PAZLydsrehXlL"
    "mM0mbaHouLhjrVxN9VSFeHfnlBgX7ay1Kq8++tgbbtRvpLyrBR/U1jffTq4nSnytbNDBnoYxe0Us0WP2K+5Ye+u6jsenPt2Y3+9Okvg1ORvHPwbI2ykzkLHscq7sDr0z"
    "sF0YQSe9KHslLVpmxUJaj+jlmALiRO952bxeHkURc/neTTA5ZYJEZBi5HZkPf9RoTxbQC1CT95mqHwf78JymFWnAjkb6zNLsk31gQ+gM4AutZhrlaR6epvVGFnfmBnNp"
    "GuBnvWT5Ac2Ai0lR/zmpZTsPU7unpgtsKuU1JutRlcLqYE9MjUrxnBh/Gy3MovphpaN2mn3GjC8zjq0FR6DHqGq7dIFCkSZt710qj492+vAO6wmb6tHfioMEB6Hnyw2Q"
    "RDoxzHtcBfRd1JU8xRLAdrVweKHvxdrnCGVYL4LOU9oREvKhDb/r0mhDRgqBCenOehbG3SUyTaHCc9Cu/sSUu57VdbVamBOoTCg7xWWSnVOCJNAJ5UcbITq9wu/YXcgM"
    "wnNN8VK1ujFLzCcwTUNspxcpXJwIcMj7Iax1ZRyMs0wc1Cge4zCF5pSArT7UhdsvjztEo3udUl+IRqGFU+8909SAuvSiA+NK8GjCgmInkf2OE2c7dMLq4qp0THFmCHt9"
    "fOS/G1Qvy8GYNOgxfCC6Dw6mznYglglTcg6Xw3GnIAySqjVwSMfd9440KCg6+M0bTsf1uXBy3/OspvTXMaNp/8V+K2paRxwSF6AojpXhjeti4zLlv+RybU/BAAZYZvwB"
    "XIBkT12lr6tEd4txS7QpGJKn2smz+FalRCgCfwIOg6Wm7XNffUJbui9MojbXJ+SIbcQQO6VCL2rf9Cz+98mkexnDppIKo9U1uN5rbwIDAQABAoIEAFfBGevxSHceskwU"
    "qrWyC0pRW66iQd85JR1JX+xJREWJLgoACKw6ZxGt9wtY8f1O+LrT9+7ukTcy7f5ElkeQw4iwtKxadrLiX3ztw32vnVPvdOybi1zYjka0eCH+G9m3JhWXKLxdRWRmhUNK"
    "IV4Hqe4HwUc/DygHvIbirWj17oB4Z7b/VpDBgvdZ24wtAHUA0KFzJ62BwGcuAUyUW6M9o0ORPc67bYdXPOVxXJlM4kzfUW1nG3xbYTZHW3/sHzQZpaarF1nPSjDrRAJZ"
    "3/4XOBxByCv6vz43qSZvA+dy70X3ZxTt0FgybqNVZ3+wqqOqcIQVw8/5H1jSskigReXFobwv88zY9nV3FqmBd5Ht6ZiaO8w2yWvH2fC2CjqDnyCUZhhpsTMMrCKYD+w4"
    "7e2/YSXsl60r4lDZOvA86hCqtAKc984eYbEYBZcGUbi4SDNiBsXKzAA2iiCctGG98Rh7EXMfbCPlaoC1a6xb3lyGRyys5tkc8I+XbktCw6ChnDONGx8tAU93YoUSgFjB"
    "F54n4koXT8siBUD5kNwJdKOrRMc2tD34mmiFJIOM5rG2YPIKMHlWl89zeW4zrmTMZLXIt4Bd5RIe76VK5Zt8U8bWYNHv2sm6k2K0AdquplutW6fRLH3pp3XkS6tN8xsW"
    "lkB1n3Upy4bXPrO9Lj+HyLyXfnx0vmUF7OoPFFThMpeo33SixCHPiuFfcSiedeqe0vtO9eLJ2xBq+UiUx70x+ptJ6ckzkOU8H/cM+xmwQHis3dpAhI8eCwcewFaiNmUt"
    "QVcGfEykVlj37PL3bW1AHY37c8uanpJU9Dl6KZpJNxdeGYyynzsiTC5cWdZ98q4uzUWcZdlRFKJsLxOPsnhRKxtE7WZynuW+lw5bG67MzELoDfJ2dB7uBa02Of6+Lh7S"
    "g5Q/Ygog+FdYLEA4qQJMO3gt37vU+EKZfS7EC8BgWzFA31mp/kktLrAM3H0pH7QAs06+S4XTR+bd3iqS0cpDJQ5yoD77Hx6jBR2hnpK/QpEtFWfj1EAeA+anRQKA+GGq"
    "p/QZUZecz7m++gTf0gq9Wsy8iCN1R+x7JntKBmVxFWgAJGpgn/ZGEq0kXm2/jnALWz+sxjdKvGAXQUpv58qoOSDKm+/mRGpjL+DSZIq7K9kBivC7/e2spG011o+ctbV1"
    "wLqJnro5J2RqJTOLO79sTlfeLvfBA7Itovk8J2Kg5rXFYZW7Ckx35FeQ1IywkCtQo2R+dIlIhWlBQnyMkCDyElK2dydGwhty4Z/EkgqVk5y0B+uR3PvtzVcsf68XA8UA"
    "0q/2h+BI15P0HCNg71EacflkwvjBpEszvwn7qgVIXMnAyLVHp2jhnp/S1zOgQy/i2L+FQJ0CggIBAPsbu4KStXkGJnkfTicLmPVLdxX48Xy2xoCETFhtdEOFIk+vQQf8"
    "dtYuF6/hFi7dAnMniTC2VHiE2R2FJnTJl108ryuRapdEoJYsWGVwJuQBk4eSufQcleTNJJQG0b6HNm44HuC5CGYAyDXBZh78+/GkhQUe1lGE/n39zOq0iJo97WkdVjaQ"
    "7mwOMas0fjTpnA8AeJMopt3n3c9RIMpRX9cZ8ZgmQwLi1Uj9Y4dObk7EeaOG84RBMOMMsROUnUdv9rkqJPjfakzuc5N+vJ7b1DHGXdNv5vOoa/YvsKlQ53IJsGTeWaU8"
    "3x9GR3/ESuuNbw+oR7dUFTIx05jOIKuTVMOCaLMK/VTiC5qHxGd/2AFOGhlUyK5uUYql+xj6bLNieXjP9WWM94otQmcckR994sTDSN8YzY3Ouns1I2ywnClUWIS1Uvjo"
    "tP5clZUSXNczINiVLdJVs+urxcF9E9SaDm130TrV0n7bwKU3esvHB4Bo148PCcsQcD2GEoiGRc1ChmaFNULOguoDpr72UEt5DeOuX+ica2VtXwErbri+xdj5EhNT/qTL"
    "c8JQYusfEoETa3YJo50GxJ/lHSzZZgIYvT7pULM5JSjuxK5CtEuGb75mar9x+wIGCQrAciiS+OkLaL3K0n8k5LSLnPZyzfuKyZdzovr59mRhwzJ3GaF+lVbTAoICAQDp"
    "4JlcMNLEOopPCbRG4N0QRM2x9qxekz8JQ/VqHHKOLvcFkqOMhsI0vPJ7GnBPLYSPl8vDGbN/cBAxcFV4XbmLlYRWaK50W8TWBPgGpmdXY5OBuIIEMG4/uCDSmNMoucPz"
    "mW6tihsNH7fUJvVo6KwmfDOwBvpen2sQoV2Cy/S9roisd51FaNQb1OObYcwrKoBPqTXnwsn5iVlutSkErWylblQAAGORbFFsnNNbJNMlKGeqbp8qMlq9jNZQylTxiSVh"
    "KO660QhtNFSwWcHLq91ilONmPdcX6wl9RZDraVabhkMc2CJ6sPt6CDmEz0t2mCySq+59KGkarVt4o2xQqd9Q0XgDqaPG6OvYSH7+BOusN/0sQ+Ej94YXjLJqSsSNKxm2"
    "ZF9ZN5ROacANcx3GWltw2WBqeMN2+mapf/lfMi6J/pcCVlN+gVhJjpx4amONDR6yPHSt56/iom2ucyP0Lb7QyjSrhzVJNTL1e7Ir8cUq3rIIsTHmZZ7KGFZWZ94Qo+E4"
    "Dwk39JVyFW/om6ArZhHhau1vBd+Cmx6VRWS/WCuPK1gaXcf2hNtxdRG6pD+r1T3jZiSIEaP0qdAUvWtL1y/vy+mSZ30m0gODLe0P1jR7T+e2HdEEuYipoFSWZCnE0ujS"
    "haf177kZrijmmto/xOqYDTif0b5vaebrk0W0e38vdQKCAgBeacnxyTmEPITAq72Vvq2PJQWsdEJP0uUFsziFUvoQ3QDOlyVLXGhOFVyAm4/cpOpj46yYbSWLft+nUsXn"
    "yVgpDUULi4xZPctnS1sdILLurY0Lv2Y9W3YcZeln4rx/95TGkkFB2zBGMesVExdTdWlBLMt65mJMmkWZl5CxepmV7MzT5dzhfVK3vAp+xajiOiecGGA9bF55NtHWPjmm"
    "+Duhw7Zrr48oiaMJ44PFfv7IjOTzUC1FP8GizMXTh+Au2PEaI7ds/4uXS1yXS2KeFCdPY7cpZXyfhma5VKsGrk2nOe9hrZxlHWMC/kipyGMm97GXYH0+d9XUXpmhbXcp"
    "K6cGL4UwNGSVwrv8KSn2hEHyE6yKc69UrlPoXonvlVDDjbYAb6hju0HjaSr7W+lQvuNBee9vOoMm22CQLKWaGzlL7NOvagG9ZrmOnb78IsBXhXjHFif5WpHgfWBIZL/N"
    "AvODwzYe+gBABF4FgLuh3L58UG8j8dKL0C1zZHKZdGrQR0ADUfh5mu3sEN1kFXaROf236ntTGWTj6OB8rxjdS5VWBCgArmcjDQAEQnc+0hsB/ww7gFpNExtgxyNWFpNd"
    "HHIjMlROXqETJ9s5bgkeEHj5TMa8Hp3y39QMf9ksWj5OWSTTn2vPtE5td8TXgMjj2AX99NOFq/AxQ/TBh7hSWSbLUwKCAgEAzc2MZmm4LmDtMFvzvaNGJHjHIOFWEOs1"
    "vyuEG9nonGGLkeXV8WTsJIhYQCelyKbfTZRgA9Dr+SpdtYOKUp73FXN+vqLjURUoAsTglMl9ipLfTHlWP+V2PrACgg9lUSMW4ZeUozUyVLwigZe+wJBuXHdS7IVXcEiM"
    "aFf295AOT5P0RQAE7v0uGUee+i53AU0nF/JoswbfwKwyfI8CB1Gsl26ckFvHQkK07AScoEmpW7tQbdNmUDV7T+1M8k75rIno0LS6Tr5+0coI9B4nwNf9ujAWYvPsAOoc"
    "sZWzztQlGDpveERhIuH2iQ4Pv2TCnRuPrYmKFaynwIfoRCJawCibkHyjRWXT7scsMmipB1LBKA0kxfz9cy7vWm2+2nXsu+S/fZaZqOKVqOK505wHCXKdoJJIm6ilKF90"
    "U5d/k1uPRHM54x6f3mRnkmLiIbxM2eQ/rMwySI3mYmJYbfh4HPjcPtKQwpf6Ne+QZiBxSuY3gF/y/l8e8AVgU6pS3zoLWU08dJ4WmJyrnXZrwZ6gtU/eUCRNxzK92ioy"
    "IVytKQunWRblMl5wBegnSpGgBkNenBDLov1RDEOpqTR9HKMKdfRoBHXFlcVnhe+sk5SoVRVDnXdVCRb3xVaWgd3KUYTWlJKbuhVPFcXbdlOhPjvp7c+UODT6LPjewR/J"
    "ymcQIZ/C7bkCggIBAMqklqG5nRViSTOcscGqXZ2oEWQT7rE7ZgE3qnJ5nfukaM1pYQbr0zZ1LRWFqQg7CZ0BoPWEJWZYklEGq7lpYTdqkkBHlaVw9+3ykdyfPVcUhZ6g"
    "V8XACnUDGzsxjZYPfm991O9fRImZr6rcIhtONwJ7FCkmbThHL/HBdiELqNRxtXQPD0FGocbW+QxsvlfIVSgOmDGFRT4AYUrE6VKk9LkPO6Viul27WVIX8HjgqRTQ+Ihb"
    "SjH5wjjT5vBZ5ELCrXhX1vRm56ewFUCbUbbHGIhtsFzPX5pDHPc1GyY4hhwBqjVzRpfwAtRU3PV6gKUSrcMK5cyfeXh8RJoVMHsIxQOlaKQxcRHrOJ0ia4Hcz4/zOgeH"
    "IHYTlrd18+YNrsnFRlv01o7BJs91fEP+Ti2rsfdYlKCZbN5TZzoqCT2wbk6dbO3C0DYhgkdFBkWFeRIhAgeZLIViB9nuWuCvZj8gzljt6s0hU+rgno0L2/CauZGfvZ7X"
    "I4N7K9DnJYy+nr0ZtYjxPgZCj94wsjwvNXAjMoqn9sw/h1vtTHRK2Uye96NL1ipTf/Iw6OjQNsr4bG0DcdVOz1ufUydlJFc5mH0KudjGYh3rMEjPpRgZqVWvhvncNiSe"
    "W5ul43RJxF1fWotiweYiuLMPAyWyu2GdL/j+32By201ZUf9+vkOutwTFsKaL"},
};
} // namespace keys
