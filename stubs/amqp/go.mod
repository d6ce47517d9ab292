module github.com/rabbitmq/amqp091-go

go 1.20
